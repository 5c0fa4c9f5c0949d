"""C08: result history."""
import copy

from hypothesis import strategies as st

from .c07 import observe, odd_smap, odd_ups, smap, thaw, ups
from .harness import Sub

RULE = ("case = initial state + history of add_step / load_steps / get_step / first / last / iterate / mutate "
        "operations; non-trivial = at least two steps and a read after a load_steps or after a mutation of a "
        "returned state")
ASSUMPTIONS = ["updates are given as site maps or as SITES/GENERAL maps (either part may be missing)"]

diff = st.one_of(
    st.tuples(st.just("flat"), smap, st.just({})),
    st.tuples(st.just("full"), smap, ups),
    st.tuples(st.just("sites_only"), smap, st.just({})),
    st.tuples(st.just("general_only"), st.just({}), ups),
).map(list)

odd_diff = st.one_of(
    st.tuples(st.just("flat"), odd_smap, st.just({})),
    st.tuples(st.just("full"), odd_smap, odd_ups),
    st.tuples(st.just("general_only"), st.just({}), odd_ups),
).map(list)

quick_diff = st.tuples(st.sampled_from(["flat", "full", "flat", "full", "sites_only"]),
                       st.dictionaries(st.sampled_from("0123"), st.dictionaries(st.sampled_from("ab"), st.integers(0, 9),
                                                                                max_size=2), max_size=2),
                       st.dictionaries(st.sampled_from("ab"), st.integers(0, 9), max_size=1)).map(list)

op = st.one_of(
    st.tuples(st.just("add"), odd_diff),
    st.tuples(st.just("add"), diff),
    st.tuples(st.just("load"), st.sampled_from([1, 2, 3, 4, 5, 7, 10, 50])),
    st.tuples(st.just("get"), st.integers(0, 300), st.booleans()),
    st.tuples(st.just("get"), st.integers(0, 30), st.booleans()),
    st.tuples(st.just("output"), st.integers(0, 30), st.booleans()),
    st.tuples(st.just("first"), st.just(0), st.booleans()),
    st.tuples(st.just("last"), st.just(0), st.booleans()),
    st.tuples(st.just("iter"), st.just(0), st.booleans()),
    st.tuples(st.just("iter_step"), st.integers(0, 8), st.booleans()),
).map(list)


def strat():
    return st.fixed_dictionaries({
        "sites": odd_smap, "general": odd_ups,
        "pre": st.one_of(st.lists(diff, max_size=6), st.lists(diff, max_size=6),
                         st.lists(quick_diff, min_size=11, max_size=30)),
        "repeat": st.sampled_from([1] * 8 + [9]),
        "ops": st.lists(op, min_size=3, max_size=20),
    })


def to_batch(d):
    kind, sm, gen = d
    sm = {int(k): copy.deepcopy(v) for k, v in sm.items()}
    if kind == "flat":
        return sm
    if kind == "sites_only":
        return {"SITES": sm}
    if kind == "general_only":
        return {"GENERAL": copy.deepcopy(gen)}
    return {"SITES": sm, "GENERAL": copy.deepcopy(gen)}


def apply_model(model, d):
    sites, general = copy.deepcopy(model)
    for k, u in d[1].items():
        sites.setdefault(int(k), {}).update(copy.deepcopy(u))
    if d[0] in ("full", "general_only"):
        general.update(copy.deepcopy(d[2]))
    return sites, general


def start(case):
    from pylattica.core import SimulationState

    s = SimulationState()
    for k, u in case["sites"].items():
        s.set_site_state(int(k), copy.deepcopy(u))
    s.set_general_state(copy.deepcopy(case["general"]))
    return s, ({int(k): copy.deepcopy(u) for k, u in case["sites"].items()}, copy.deepcopy(case["general"]))


def spoil(s):
    """Modifies a returned state through its update methods."""
    for i in list(s.site_ids()):
        s.set_site_state(i, {"a": "SPOILED", "zz": 1})
    s.batch_update({"GENERAL": {"b": "SPOILED"}, "SITES": {777: {"a": 1}}})
    s.set_general_state({"a": "SPOILED"})


def check(case):
    from pylattica.core import SimulationResult

    case = thaw(case)
    s0, m0 = start(case)
    res = SimulationResult(s0)
    models = [m0]
    for d in case["pre"] * case["repeat"]:
        res.add_step(to_batch(d))
        models.append(apply_model(models[-1], d))
    loaded = spoiled = reads_after = 0
    for o in case["ops"]:
        kind = o[0]
        if kind == "add":
            res.add_step(to_batch(o[1]))
            models.append(apply_model(models[-1], o[1]))
        elif kind == "output":  # what a runner does when it is done
            res.set_output(res.get_step(o[1] % len(models) if o[2] else len(models) - 1))
        elif kind == "load":
            res.load_steps(o[1])
            loaded += 1
        elif kind in ("get", "first", "last"):
            k = {"get": o[1] % len(models), "first": 0, "last": len(models) - 1}[kind]
            s = res.get_step(k) if kind == "get" else res.first_step if kind == "first" else res.last_step
            observe(s, models[k])
            reads_after += bool(loaded or spoiled)
            if o[2]:
                spoil(s)
                spoiled += 1
        elif kind == "iter":
            steps = list(res.steps())
            assert len(steps) == len(models), ("iterated", len(steps), "of", len(models))
            for s, m in zip(steps, models):
                observe(s, m)
            reads_after += bool(loaded or spoiled)
            if o[2]:
                spoil(steps[len(steps) // 2])
                spoiled += 1
                for k, (s, m) in enumerate(zip(steps, models)):
                    if k != len(steps) // 2:
                        observe(s, m)
        elif kind == "iter_step":  # consume one at a time, spoiling on the way
            n = 0
            for s, m in zip(res.steps(), models):
                observe(s, m)
                n += 1
                if o[2] and n == o[1] + 1:
                    spoil(s)
                    spoiled += 1
            assert n == len(models)
        assert len(res) == len(models), (len(res), len(models))
    for k, m in enumerate(models):
        s = res.get_step(k)
        observe(s, m)
        if len(models) < 40 or k % 10 == 0:
            spoil(s)
    for k, m in enumerate(models):
        if len(models) < 40 or k % 10 == 0:
            observe(res.get_step(k), m)
    observe(res.first_step, models[0])
    observe(res.last_step, models[-1])
    observe(res.initial_state, models[0])
    labels = []
    if loaded:
        labels.append("preloaded")
    if len(models) > 100:
        labels.append("over_100_steps")
    if spoiled:
        labels.append("spoiled")
    return len(models) > 2 and reads_after > 0, labels


SUBS = [Sub("history", strat, check, quick=1500)]
