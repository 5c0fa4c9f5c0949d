"""C21: state queries."""
import copy
import json

import numpy as np
from hypothesis import strategies as st

from .harness import Sub

RULE = ("case = sites with classes and up to three keys each (missing ones included) x queries (value pairs, generated "
        "predicates, class or none, structure attached or not), compared with a direct scan; non-trivial = some query "
        "matches some but not all sites")
ASSUMPTIONS = ["values are equal as Python has it (1 == 1.0 == True)",
               "with a structure attached, state and structure have the same sites"]
KEYS = ["k", "phase", "w"]
VALS = [0, 1, 2, -1, "x", "y", "", None, "1", 1.0, 0.5, True, 70000, "a longer text", [1, "x"], {"q": [0]}, []]


@st.composite
def strat(draw):
    n = draw(st.sampled_from([3, 1, 2, 5, 8, 12, 30]))
    sites = [{"cls": draw(st.sampled_from(["A", "Ab", "b", ""])),
              "vals": draw(st.dictionaries(st.sampled_from(KEYS), st.sampled_from(VALS[:4] if draw(st.booleans()) else VALS),
                                           max_size=3))} for _ in range(n)]
    pred = st.tuples(st.sampled_from(["has", "eq", "ne", "in", "idmod", "idlt", "both", "numpy"]), st.sampled_from(KEYS),
                     st.sampled_from(VALS), st.integers(1, 4)).map(list)
    qs = draw(st.lists(st.fixed_dictionaries({
        "pairs": st.dictionaries(st.sampled_from(KEYS), st.sampled_from(VALS[:3] + [None, "1", "x", 1.0, *VALS[-5:]]), max_size=3),
        "preds": st.one_of(st.lists(pred, max_size=3), st.lists(pred, max_size=3), st.lists(pred, min_size=9, max_size=12)), "cls": st.sampled_from([None, None, "A", "Ab", "b", "", "Z"]),
        "struct": st.booleans(), "none": st.booleans()}), min_size=1, max_size=5))
    ch = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(KEYS), st.sampled_from(VALS[:3])).map(list),
                       max_size=4))
    return {"changes": ch, "sites": sites, "queries": qs, "ids": draw(st.booleans()), "perm": draw(st.permutations(range(n)))}


def predicate(p):
    from pylattica.core.constants import SITE_ID

    kind, key, val, m = p
    return {"has": lambda s: key in s, "eq": lambda s: s.get(key) == val, "ne": lambda s: s.get(key) != val,
            "in": lambda s: s.get(key) in (val, 0, "x"), "idmod": lambda s: s[SITE_ID] % m == 0,
            "numpy": lambda s: np.bool_(key in s),
            "idlt": lambda s: s[SITE_ID] < 3 * m,
            "both": lambda s: key in s and s[key] == val and len(s) > 1}[kind]


def fresh(vals):
    """Equal values, but other objects."""
    return json.loads(json.dumps(vals))


def check(case):
    from pylattica.core import Lattice, PeriodicStructure, SimulationState, StateAnalyzer
    from pylattica.core.constants import SITE_ID

    n = len(case["sites"])
    S = PeriodicStructure(Lattice([(n, 0), (0, 1)]))
    ids = [S.add_site(s["cls"], (k, 0)) for k, s in enumerate(case["sites"])]
    free = case["ids"]  # ids unrelated to a structure
    if free:
        ids = [3 * i + 4 for i in ids]
    state = SimulationState()
    for k in case["perm"]:
        state.set_site_state(ids[k], fresh(case["sites"][k]["vals"]))
    before = copy.deepcopy(state.as_dict())
    partial = False
    labels = set()
    analyzers = [StateAnalyzer(), StateAnalyzer(S)]
    vals = [dict(s["vals"]) for s in case["sites"]]
    # the same analyzers are asked the same again after the state has changed
    rounds = [(q, None) for q in case["queries"]] + \
        [(case["queries"][k % len(case["queries"])], c) for k, c in enumerate(case["changes"])]
    for q, change in rounds:
        if change is not None:
            state.set_site_state(ids[change[0]], fresh({change[1]: change[2]}))
            vals[change[0]][change[1]] = change[2]
            before = copy.deepcopy(state.as_dict())
        use = q["struct"] and not free
        an = analyzers[use]
        kw = {}
        if use and q["cls"] is not None:
            kw["site_class"] = q["cls"]
        labels.add("structure" if use else "no_structure")

        def sel(test):
            out = []
            for k, s in enumerate(case["sites"]):
                if "site_class" in kw and s["cls"] != kw["site_class"]:
                    continue
                if test({SITE_ID: ids[k], **vals[k]}):
                    out.append(ids[k])
            return sorted(out)

        preds = [predicate(p) for p in q["preds"]]
        want = sel(lambda s: all(p(s) for p in preds))
        if q["none"] and not preds:
            got = an.get_sites(state, **kw)
            cnt = an.get_site_count(state, **kw)
        else:
            got = an.get_sites(state, state_criteria=list(preds), **kw)
            cnt = an.get_site_count(state, state_criteria=list(preds), **kw)
        assert sorted(got) == want, ("criteria", q, sorted(got), want)
        assert cnt == len(want), (cnt, len(want))
        want2 = sel(lambda s: all(k in s and s[k] == v for k, v in q["pairs"].items()))
        pairs = dict(q["pairs"])
        got2 = an.get_sites_where_equal(state, pairs, **kw)
        assert sorted(got2) == want2, ("pairs", q, sorted(got2), want2)
        assert an.get_site_count_where_equal(state, pairs, **kw) == len(want2)
        assert pairs == q["pairs"]
        assert state.as_dict() == before, "a query changed the state"
        partial = partial or 0 < len(want) < n or 0 < len(want2) < n
    return partial, sorted(labels)


SUBS = [Sub("queries", strat, check, quick=900)]
