"""C07: SimulationState merge semantics and independence of copies."""
import copy
import json

from hypothesis import strategies as st

from .c06 import values
from .harness import Sub

RULE = ("case = history of set_site_state / set_general_state / batch_update (four forms) / copy / rebuild / "
        "round-trip / nested-mutation operations over several live states; non-trivial = some key of some site was "
        "left untouched by a later update of that site, and a copy or rebuild happened")
ASSUMPTIONS = ["site ids are integers, keys are strings, values are JSON values or (where the state is not sent through "
               "JSON) tuples and dictionaries with integer keys",
               "a flat batch (site map) is distinguished from a combined one by the documented keys GENERAL / SITES"]

key = st.sampled_from(["a", "b", "c", "d"])
ups = st.one_of(st.dictionaries(key, st.one_of(st.integers(0, 9), values), min_size=1, max_size=3),
               st.dictionaries(key, st.integers(0, 9), max_size=2))
ids = st.one_of(st.integers(0, 5), st.integers(-10, 1000))


def site_maps(ups):
    return st.one_of(st.dictionaries(st.integers(0, 3).map(str), ups, min_size=1, max_size=3),
                     st.dictionaries(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -7, 41]).map(str), ups, max_size=4))


smap = site_maps(ups)
# values JSON does not keep: tuples and dictionaries with integer keys (tagged in the case)
odd = st.one_of(st.lists(st.integers(0, 3), max_size=3).map(lambda v: {"<tuple>": v}),
                st.dictionaries(st.integers(0, 3).map(str), st.integers(0, 3), max_size=2).map(lambda v: {"<ints>": v}))
wide = st.integers(8, 17).map(lambda n: {"k%d" % k: k for k in range(n)})
odd_ups = st.one_of(*[ups] * 7, st.dictionaries(key, st.one_of(st.integers(0, 9), odd, odd.map(lambda v: [v])), max_size=3), wide)
odd_smap = site_maps(odd_ups)


def thaw(x):
    """The case with its tagged values as the objects they stand for."""
    if isinstance(x, list):
        return [thaw(v) for v in x]
    if isinstance(x, dict):
        if list(x) == ["<tuple>"]:
            return tuple(x["<tuple>"])
        if list(x) == ["<ints>"]:
            return {int(k): v for k, v in x["<ints>"].items()}
        return {k: thaw(v) for k, v in x.items()}
    return x


def is_json(x):
    if isinstance(x, dict):
        return all(isinstance(k, str) and is_json(v) for k, v in x.items())
    if isinstance(x, tuple):
        return False
    return all(is_json(v) for v in x) if isinstance(x, list) else True


op = st.one_of(
    st.tuples(st.just("site"), st.integers(0, 5), ids, odd_ups),
    st.tuples(st.just("site"), st.integers(0, 5), st.integers(0, 3), odd_ups),
    st.tuples(st.just("site"), st.integers(0, 5), st.integers(0, 3), st.just({})),
    st.tuples(st.just("whole"), st.integers(0, 5), st.integers(0, 3), odd_ups),
    st.tuples(st.just("general"), st.integers(0, 5), odd_ups),
    st.tuples(st.just("flat"), st.integers(0, 5), odd_smap),
    st.tuples(st.just("both"), st.integers(0, 5), odd_smap, odd_ups),
    st.tuples(st.just("sites_only"), st.integers(0, 5), odd_smap),
    st.tuples(st.just("general_only"), st.integers(0, 5), odd_ups),
    st.tuples(st.just("copy"), st.integers(0, 5)),
    st.tuples(st.just("copy"), st.integers(0, 5)),
    st.tuples(st.just("rebuild"), st.integers(0, 5)),
    st.tuples(st.just("bare"), st.integers(0, 5), odd_smap, st.integers(0, 3), odd_ups),
    st.tuples(st.just("json"), st.integers(0, 5)),
    st.tuples(st.just("dict"), st.integers(0, 5)),
    st.tuples(st.just("nested"), st.integers(0, 5), st.integers(0, 8), key),
    st.tuples(st.just("nested_general"), st.integers(0, 5), key),
).map(list)


def strat():
    return st.fixed_dictionaries({"ops": st.sampled_from([8, 4, 14]).flatmap(lambda k: st.lists(op, min_size=k, max_size=k + 12))})


def observe(s, model):
    from pylattica.core.constants import SITE_ID

    sites, general = model
    assert sorted(s.site_ids()) == sorted(sites), (s.site_ids(), sorted(sites))
    assert s.size == len(sites)
    for i, want in sites.items():
        full = {SITE_ID: i, **want}
        assert s.get_site_state(i) == full, (i, s.get_site_state(i), full)
    assert s.get_general_state() == general, (s.get_general_state(), general)
    alls = s.all_site_states()
    assert len(alls) == len(sites)
    byid = {x[SITE_ID]: x for x in alls}
    assert byid == {i: {SITE_ID: i, **w} for i, w in sites.items()}
    for missing in (-11, 1001, 9999):
        assert s.get_site_state(missing) is None


def bare(d):
    return {k: v for k, v in d.items() if k != "_site_id"}


def poke(d, k):
    """Mutates a nested value in place when there is one."""
    v = d.get(k)
    if isinstance(v, list):
        v.append("POKED")
        return True
    if isinstance(v, dict):
        v["POKED"] = 1
        return True
    return False


def other_order(s):
    """The same state, its sites, keys and values set in the opposite order."""
    from pylattica.core import SimulationState
    from pylattica.core.constants import SITE_ID

    t = SimulationState()
    for k, v in reversed(list(s.get_general_state().items())):
        t.set_general_state({k: v})
    for i in reversed(list(s.site_ids())):
        t.set_site_state(i, {})
        for k, v in reversed(list(s.get_site_state(i).items())):
            if k != SITE_ID:
                t.set_site_state(i, {k: v})
    return t


def check(case):
    from pylattica.core import SimulationState

    case = thaw(case)
    # live states: [state, model]; every one is observed after every operation
    live = [[SimulationState(), ({}, {})]]
    observe(*live[0])
    kept = copies = nested = 0
    passed = []  # every update object passed in, with what it held

    def merge(model, i, u):
        nonlocal kept
        old = model[0].setdefault(i, {})
        if any(k not in u for k in old):
            kept += 1
        model[0][i] = {**old, **copy.deepcopy(u)}

    for o in case["ops"]:
        kind, which = o[0], o[1] % len(live)
        s, model = live[which]
        if kind == "json" and not (is_json(model[1]) and all(map(is_json, model[0].values()))):
            kind = "dict"
        arg = None
        if kind in ("site", "whole"):
            arg = copy.deepcopy(o[3])
            if kind == "whole":  # as when a site's state is carried over to another state
                arg["_site_id"] = o[2]
            s.set_site_state(o[2], arg)
            merge(model, o[2], o[3])
            passed.append((arg, dict(arg)))
            assert {k: v for k, v in arg.items() if k != "_site_id"} == o[3]
        elif kind == "general":
            arg = copy.deepcopy(o[2])
            s.set_general_state(arg)
            model[1].update(copy.deepcopy(o[2]))
            passed.append((arg, dict(arg)))
            assert arg == o[2]
        elif kind in ("flat", "both", "sites_only", "general_only"):
            sm = {int(k): v for k, v in o[2].items()} if kind != "general_only" else {}
            if kind == "flat":
                batch = copy.deepcopy(sm)
            elif kind == "both":
                batch = {"GENERAL": copy.deepcopy(o[3]), "SITES": copy.deepcopy(sm)}
            elif kind == "sites_only":
                batch = {"SITES": copy.deepcopy(sm)}
            else:
                batch = {"GENERAL": copy.deepcopy(o[2])}
            before = copy.deepcopy(batch)
            s.batch_update(batch)
            assert batch == before, "update batch was changed"
            for d in [batch, batch.get("SITES", {}), batch.get("GENERAL", {}), *batch.get("SITES", {}).values()]:
                passed.append((d, dict(d)))
            for i, u in sm.items():
                merge(model, i, u)
            if kind == "both":
                model[1].update(copy.deepcopy(o[3]))
            elif kind == "general_only":
                model[1].update(copy.deepcopy(o[2]))
        elif kind in ("copy", "rebuild", "json", "dict"):
            if kind == "copy":
                t = s.copy()
            elif kind == "rebuild":
                src = {"SITES": {i: copy.deepcopy(s.get_site_state(i)) for i in s.site_ids()},
                       "GENERAL": copy.deepcopy(s.get_general_state())}
                t = SimulationState(src)
                # the source dictionary stays the caller's
                for d in list(src["SITES"].values()) + [src["GENERAL"]]:
                    d["LATER"] = 1
                    for k in "abcd":
                        poke(d, k)
            elif kind == "dict":
                t = SimulationState.from_dict(s.as_dict())
            else:
                t = SimulationState.from_dict(json.loads(json.dumps(s.as_dict())))
            copies += 1
            assert t == s and s == t
            if len(live) < 5:
                live.append([t, copy.deepcopy(model)])
            observe(t, model)
            w = other_order(s)
            observe(w, model)
            assert w == s and s == w, "equal contents, set in another order, compare as different"
            if model[0] or model[1]:
                u = s.copy()
                u.set_general_state({"only here": 1})
                assert not (u == s)
        elif kind == "bare":  # a state made from site dictionaries without their ids, and its update
            t = SimulationState({"SITES": {int(k): copy.deepcopy(v) for k, v in o[2].items()}, "GENERAL": {}})
            want = {int(k): copy.deepcopy(v) for k, v in o[2].items()}
            for _ in range(2):
                assert sorted(t.site_ids()) == sorted(want) and t.size == len(want)
                for i, w in want.items():
                    assert bare(t.get_site_state(i)) == w, (i, t.get_site_state(i), w)
                t = t.copy()
                t.set_site_state(o[3], copy.deepcopy(o[4]))
                want[o[3]] = {**want.get(o[3], {}), **copy.deepcopy(o[4])}
                for i, w in want.items():
                    assert bare(t.get_site_state(i)) == w, ("updated", i, t.get_site_state(i), w)
        elif kind == "nested":
            d = s.get_site_state(o[2])
            if d is not None and poke(d, o[3]):
                if s.get_site_state(o[2]) == d:  # what is given out need not be the state's own
                    poke(model[0][o[2]], o[3])
                nested += 1
        elif kind == "nested_general":
            d = s.get_general_state()
            if poke(d, o[2]):
                if s.get_general_state() == d:
                    poke(model[1], o[2])
                nested += 1
        for st_, mo in live:
            observe(st_, mo)
        for d, held in passed:  # nested values are shared with the caller, the updates themselves are not
            assert d.keys() == held.keys() and all(d[k] is held[k] for k in d), ("update object was changed", d, held)
    labels = []
    if kept:
        labels.append("kept_key")
    if copies:
        labels.append("copied")
    if nested and copies:
        labels.append("nested_mutation")
    return bool(kept and copies), labels


SUBS = [Sub("history", strat, check, quick=1500)]
