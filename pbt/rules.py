"""Synthetic deterministic update rules and their independent interpreter.

A rule is data: site ids, a neighbour table, arithmetic coefficients and a list
of *forms* in which it returns its update.  SyncRule / AsyncRule are the
controllers handed to pylattica; `interpret_sync` / `interpret_async` compute
the same evolution on plain dictionaries from the definition of the run.
"""
from __future__ import annotations

import contextlib
import copy
import io
import random
import time

from hypothesis import strategies as st

from pylattica.core import BasicController, SimulationResult, SimulationState
from pylattica.core.constants import GENERAL, SITE_ID, SITES


class TaggedResult(SimulationResult):
    """What the synthetic controllers instantiate as result."""

    tag = "instantiated by the controller"


# ------------------------------------------------------------------ cases

SYNC_FORMS = ["single", "map", "sites", "both", "general", "tick", "none", "empty", "extra", "stay", "give", "giveall", "grow", "away", "found", "blank", "blankall"]
BORN = 1000  # the site a site i creates is BORN + i


@st.composite
def base_case(draw, max_sites=9, max_steps=6, min_sites=1):
    sizes = [k for k in (4, 2, 3, 5, 6, 7, 8, 1, 9, 10, 11, 12, 0) if min_sites <= k <= max_sites]
    if max_sites >= 9:
        sizes += [14, 23, 37]
    n = draw(st.sampled_from(sizes))
    contiguous = draw(st.booleans())
    if contiguous:
        ids = list(range(n))
    else:
        lo = draw(st.sampled_from([0, 0, -40]))
        ids = draw(st.lists(st.integers(lo, 500), min_size=n, max_size=n, unique=True))
    m = draw(st.sampled_from([2, 3, 5, 7, 11]))
    return {
        "ids": ids,
        "init": draw(st.lists(st.integers(0, m - 1), min_size=n, max_size=n)),
        "general": draw(st.sampled_from([{}, {"t": 1}, {"t": 0, "note": "x"}])),
        "nbrs": [draw(st.lists(st.integers(0, n - 1), min_size=draw(st.sampled_from([1, 2, 3, 0])), max_size=3)) for _ in range(n)],
        "m": m,
        "np": draw(st.integers(0, 5)) == 0,  # the rule names sites by numpy integers
        "verbose": draw(st.integers(0, 5)) == 0,
        "reuse": draw(st.integers(0, 3)) == 0,  # the rule hands out the same update objects again
        "coef": draw(st.lists(st.sampled_from([1, 2, 3, 4, 0]), min_size=4, max_size=4)),
        "steps": draw(st.sampled_from([3, 2, *range(4, max_steps + 1), 1, 0] * 3 + ([12, 23] if n < 8 else [11])
                                      + ([104] if n < 5 else []))),
    }


@st.composite
def sync_case(draw, max_sites=9, max_steps=6, min_sites=1, forms=None):
    c = draw(base_case(max_sites, max_steps, min_sites))
    c["mode"] = "sync"
    pool = forms or SYNC_FORMS
    c["forms"] = draw(st.one_of(
        st.lists(st.sampled_from(pool), min_size=1, max_size=5),
        st.lists(st.sampled_from(["single", "none"]), min_size=1, max_size=4),
        st.sampled_from([["none"], ["none"] * 3 + ["single"], ["empty"] * 4 + ["single"], ["single"], ["general"],
                         ["none", "none", "none", "none", "tick"]]),
    ))
    return c


@st.composite
def async_case(draw, max_sites=7, max_steps=14, default_prob=3, long=False):
    c = draw(base_case(max_sites, max_steps))
    c["mode"] = "async"
    c["forms"] = draw(st.lists(st.sampled_from(SYNC_FORMS + ["multi", "multi"]), min_size=1, max_size=5))
    n = len(c["ids"])
    c["next"] = draw(st.lists(st.one_of(st.none(), st.lists(st.integers(0, n - 1), max_size=3)),
                              min_size=1, max_size=5))
    if draw(st.integers(0, default_prob)) == 0:
        c["provider"] = "default"
        c["seed"] = draw(st.integers(0, 10**6))
    else:
        entry = st.one_of(st.integers(0, n - 1), st.integers(0, n - 1),
                          st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
        prov = draw(st.lists(entry, min_size=1, max_size=6))
        c["provider"] = prov
        c["cycle"] = draw(st.booleans())
        c["stop"] = draw(st.sampled_from([None, []]))
        c["shared"] = draw(st.booleans())  # hands out the same list objects again
        c["times"] = draw(st.sampled_from([1] * 7 + [60, 100, 700]))  # long lists of waiting sites
        if long and c["times"] in (60, 100) and draw(st.booleans()):
            c["steps"] = 600  # all of which get their turn
    if c["steps"] == 0 and draw(st.integers(0, 2)):
        c["steps"] = 5
    return c


LARGE_FORMS = [f for f in SYNC_FORMS if f not in ("grow", "found")]


@st.composite
def large_case(draw):
    """Many sites, or many steps, from a few numbers."""
    n, steps = draw(st.sampled_from([(150, 3), (70, 4), (260, 2), (401, 2), (1100, 2), (2, 520), (5, 300)]))
    return {"n": n, "steps": steps, "stride": draw(st.sampled_from([1, 1, 3])), "from": draw(st.sampled_from([0, 0, -70, 12])),
            "mul": draw(st.lists(st.integers(1, 40), min_size=4, max_size=4)), "m": draw(st.sampled_from([5, 7, 11])),
            "forms": draw(st.lists(st.sampled_from(LARGE_FORMS), min_size=1, max_size=4)),
            "coef": draw(st.lists(st.sampled_from([1, 2, 3, 4]), min_size=4, max_size=4)),
            "down": draw(st.booleans()), "reuse": draw(st.booleans())}


def expand(c):
    n, (a, b, d, e) = c["n"], c["mul"]
    ids = [c["from"] + c["stride"] * k for k in range(n)]
    if c["down"]:
        ids.reverse()
    return {"ids": ids, "init": [(a * k + b * k * k) % c["m"] for k in range(n)], "general": {"t": 1},
            "nbrs": [[(k * d + 1) % n, (k + e) % n][: 1 + k % 2] for k in range(n)], "m": c["m"], "np": False, "reuse": c["reuse"],
            "coef": c["coef"], "steps": c["steps"], "forms": c["forms"], "mode": "sync"}


def run(runner, state, ctl, case):
    """Run, as verbosely as the case wants, without the output."""
    if not case.get("verbose"):
        return runner.run(state, ctl, case["steps"])
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return runner.run(state, ctl, case["steps"], verbose=True)


def relabel(case):
    """The same rule on other site ids."""
    c = copy.deepcopy(case)
    c["ids"] = [i + 600 for i in case["ids"]]
    c["steps"] = min(case["steps"], 2)
    return c


def build_state(case):
    s = SimulationState()
    for i, v in zip(case["ids"], case["init"]):
        s.set_site_state(i, {"v": v, "keep": [i, v]})
    s.set_general_state(copy.deepcopy(case["general"]))
    return s


def model_state(case):
    return ({i: {SITE_ID: i, "v": v, "keep": [i, v]} for i, v in zip(case["ids"], case["init"])},
            copy.deepcopy(case["general"]))


def snapshot(state):
    """Plain form of a SimulationState."""
    return ({i: copy.deepcopy(state.get_site_state(i)) for i in state.site_ids()},
            copy.deepcopy(state.get_general_state()))


# ------------------------------------------------------------------ the rule

def index_of(case, site_id):
    return case["ids"].index(site_id if site_id in case["ids"] else site_id - BORN)


def value(states, site_id):
    d = states.get(site_id)
    return None if d is None else d.get("v", 0)


def numpy_id(i):
    import numpy as np

    return np.int64(i) if i % 2 else np.int32(i)


def effect(case, site_id, get_v, general):
    """(form, new value, site updates, general updates) of one application."""
    idx = index_of(case, site_id)
    a, b, c, d = case["coef"]
    v = get_v(site_id)
    nb = [case["ids"][k] for k in case["nbrs"][idx]]
    s = sum(get_v(j) for j in nb)
    t = general.get("t", 0)
    new = (a * v + b * s + c + d * t) % case["m"]
    forms = case["forms"]
    form = forms[(s + v + idx) % len(forms)]
    sites, gen = {}, {}
    if form in ("single", "map", "sites"):
        sites = {site_id: {"v": new}}
    elif form == "both":
        sites = {site_id: {"v": new}}
        gen = {"g%d" % site_id: new}
    elif form == "general":
        gen = {"g%d" % site_id: new}
    elif form == "tick":  # every site that ticks writes the same value
        sites = {site_id: {"v": new}}
        gen = {"t": (t + 1) % case["m"]}
    elif form == "extra":
        sites = {site_id: {"v": new, "n": s, "obj": {"at": idx}}}
    elif form == "stay":
        sites = {site_id: {"n": v}}
    elif form in ("give", "giveall"):  # every site writes a key of its own to its neighbours
        sites = {j: {"from%d" % site_id: new} for j in nb}
        sites.setdefault(site_id, {})["v"] = new
        if form == "giveall":
            gen = {"g%d" % site_id: new}
    elif form in ("clash", "clashall"):  # several sites write the same keys (only runs are compared with each other)
        sites = {j: {"c": [site_id, new]} for j in nb + [site_id]}
        sites[site_id]["v"] = new
        if form == "clashall":
            gen = {"last": site_id}
    elif form == "away":  # nothing for the site itself
        sites = {j: {"from%d" % site_id: new} for j in nb if j != site_id}
    elif form == "grow":  # creates a site; created sites follow the rule of their creator
        sites = {site_id: {"v": new}}
        if site_id in case["ids"]:
            if get_v(BORN + site_id) is None:
                sites[BORN + site_id] = {"v": (new + 1) % case["m"], "by": [site_id]}
            else:
                sites[BORN + site_id] = {"by": [site_id, new]}
    elif form in ("blank", "blankall"):  # values that are empty now and then
        w = [None, 1, [], "x", {}, "", False, 3, 0, [0], None][(new + idx) % 11]
        sites = {site_id: {"v": new, "w": w}}
        if form == "blankall":
            gen = {"w%d" % site_id: w}
    elif form == "found":  # creates a site by an empty update
        sites = {site_id: {"v": new}}
        if site_id in case["ids"]:
            sites[BORN + site_id] = {}
    elif form == "multi":
        sites = {site_id: {"v": new}}
        for k, j in enumerate(nb):
            sites[j] = {"v": (new + k) % case["m"], "from": site_id}
    return form, new, sites, gen


def as_returned(form, site_id, sites, gen, as_numpy=False):
    """The update in the form a controller returns it."""
    if as_numpy and form not in ("single", "extra", "stay"):
        sites = {numpy_id(j): u for j, u in sites.items()}
    if form == "none":
        return None
    if form == "empty":
        return {}
    if form in ("single", "extra", "stay"):
        return dict(sites[site_id])
    if form in ("map", "multi", "give", "grow", "away", "found", "clash", "blank"):
        return dict(sites)
    if form == "sites":
        return {SITES: dict(sites)}
    if form == "general":
        return {GENERAL: dict(gen)}
    return {SITES: dict(sites), GENERAL: dict(gen)}


class _Rule(BasicController):
    def __init__(self, case, log=False, sleeps=None):
        self.case = case
        self.log = [] if log else None
        self.sleeps = sleeps
        self.pre_runs = []
        self.results = []
        self.handed_out = {}

    def pre_run(self, initial_state):
        self.pre_runs.append((snapshot(initial_state), len(self.log or [])))

    def instantiate_result(self, starting_state):
        r = TaggedResult(starting_state)
        self.results.append(r)
        return r

    def _apply(self, site_id, state):
        case = self.case
        site_id = int(site_id)
        if self.log is not None:
            self.log.append((site_id, snapshot(state)))
        if self.sleeps:
            ms = self.sleeps[index_of(case, site_id) % len(self.sleeps)]
            if ms:
                time.sleep(ms / 1000)

        def get_v(j):
            d = state.get_site_state(j)
            return None if d is None else d.get("v", 0)

        return effect(case, site_id, get_v, state.get_general_state())


    def update(self, form, site_id, sites, gen):
        """The update; with `reuse` made of the objects that were returned before, where they are equal."""
        if not self.case.get("reuse"):
            return as_returned(form, site_id, sites, gen, self.case.get("np"))
        sites = {j: self.kept(u) for j, u in sites.items()}
        upd = as_returned(form, site_id, sites, gen, self.case.get("np"))
        if form in ("single", "extra", "stay"):
            return sites[site_id]
        return upd if upd is None else self.kept(upd)

    def kept(self, x):
        return self.handed_out.setdefault(repr(x), (x, copy.deepcopy(x)))[0]

    def assert_kept(self):
        for x, before in self.handed_out.values():
            assert x == before, ("an update object of the controller's was changed", before, x)


class SyncRule(_Rule):
    def get_state_update(self, site_id, prev_state):
        form, _, sites, gen = self._apply(site_id, prev_state)
        return self.update(form, site_id, sites, gen)


class AsyncRule(_Rule):
    def __init__(self, case, **kw):
        super().__init__(case, **kw)
        self.lists = {}
        self.asked = []  # what get_random_site saw
        self.calls = 0

    def get_state_update(self, site_id, prev_state):
        form, new, sites, gen = self._apply(site_id, prev_state)
        upd = self.update(form, site_id, sites, gen)
        nxt = self.case["next"][new % len(self.case["next"])]
        if nxt is None:
            return upd
        ids = [self.case["ids"][k] for k in nxt]
        return upd, self.same([numpy_id(i) for i in ids] if self.case.get("np") else ids)

    def same(self, r):
        """The list itself, or the list object that was handed out for these sites before."""
        if self.case.get("shared") and isinstance(r, list):
            return self.lists.setdefault(tuple(map(int, r)), r)
        return r

    def get_random_site(self, state):
        if self.log is not None:
            self.asked.append((len(self.log), snapshot(state)))
        if self.case["provider"] == "default":
            return super().get_random_site(state)
        r = provide(self.case, self.calls)
        self.calls += 1
        if self.case.get("np"):
            r = [numpy_id(i) for i in r] if isinstance(r, list) else r if r is None else numpy_id(r)
        return self.same(r)


def provide(case, k):
    prov = case["provider"]
    if k >= len(prov) and not case["cycle"]:
        return copy.copy(case["stop"])
    e = prov[k % len(prov)]
    return [case["ids"][i] for i in e] * case.get("times", 1) if isinstance(e, list) else case["ids"][e]


# ------------------------------------------------------------------ interpreters

def merge(model, sites, gen):
    s, g = copy.deepcopy(model)
    for i, u in sites.items():
        s.setdefault(i, {SITE_ID: i})
        s[i].update(copy.deepcopy(u))
    g.update(copy.deepcopy(gen))
    return s, g


def interpret_sync(case):
    """[state after step 0 (initial), 1, ...]."""
    hist = [model_state(case)]
    for _ in range(case["steps"]):
        prev = hist[-1]
        allsites, allgen = {}, {}
        for i in list(prev[0]):
            _, _, sites, gen = effect(case, i, lambda j: value(prev[0], j), prev[1])
            for j, u in sites.items():
                allsites.setdefault(j, {}).update(u)
            allgen.update(gen)
        hist.append(merge(prev, allsites, allgen))
    return hist


def interpret_async(case, visited=None):
    """(history, visited sites, asked indices) or None when no site at start.

    With the default provider the visited sites are taken from the run.
    """
    hist = [model_state(case)]
    order, queue, asked = [], [], []
    default = case["provider"] == "default"

    def refill():
        asked.append(len(order))
        if default:
            k = len(order)
            if k < len(visited):
                queue.append(visited[k])
            return
        r = provide(case, len(asked) - 1)
        if isinstance(r, list):
            queue.extend(r)
        elif r is not None:
            queue.append(r)

    for _ in range(case["steps"]):
        if not queue:
            refill()
        if not queue:
            break
        i = queue.pop(0)
        prev = hist[-1]
        form, new, sites, gen = effect(case, i, lambda j: value(prev[0], j), prev[1])
        hist.append(merge(prev, sites, gen))
        order.append(i)
        nxt = case["next"][new % len(case["next"])]
        if nxt is not None:
            queue.extend(case["ids"][k] for k in nxt)
    return hist, order, asked


def seeded(seed):
    random.seed(seed)
    import numpy as np

    np.random.seed(seed % (2**32))
