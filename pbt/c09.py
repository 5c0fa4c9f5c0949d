"""C09: saved results reload with the same steps."""
import json
import os
import tempfile

from hypothesis import strategies as st

from . import rules
from .c07 import observe, smap, ups
from .c08 import apply_model, diff, quick_diff, start, to_batch
from .harness import Sub

RULE = ("case = manual result (site-only / combined updates) or a synthetic rule run by the synchronous or "
        "asynchronous runner, saved and reloaded; non-trivial = at least two steps with at least one site update")
ASSUMPTIONS = ["values are JSON-representable and site ids are integers"]


def strat_manual():
    return st.fixed_dictionaries({"sites": smap, "general": ups, "diffs": st.one_of(st.lists(diff, max_size=7), st.lists(diff, max_size=7),
                                                     st.lists(quick_diff, min_size=9, max_size=26)),
                                  "again": st.lists(st.integers(0, 6), max_size=2), "load": st.integers(0, 3)})


def reloads(res):
    fd, path = tempfile.mkstemp(suffix=".json")
    os.write(fd, b"[0, 1, 2]\n" * (len(res) % 3 * 5000))  # an older file of this name is replaced
    os.close(fd)
    try:
        out = res.to_file(path)
        assert out == path
        a = type(res).from_file(path)
    finally:
        os.remove(path)
    name = res.to_file()  # a name of its own choice, in the working directory
    try:
        e = type(res).from_file(name)
    finally:
        os.remove(name)
    b = type(res).from_dict(json.loads(json.dumps(res.as_dict())))
    c = type(res).from_dict(res.as_dict())
    d = type(res).from_dict(json.loads(json.dumps(b.as_dict())))
    return [a, b, c, d, e]


def same(res, others):
    n = len(res)
    for r in others:
        assert len(r) == n, (len(r), n)
        for k in range(n):
            x, y = res.get_step(k), r.get_step(k)
            assert x == y, (k, _dump(x), _dump(y))
            assert _dump(x) == _dump(y), (k, _dump(x), _dump(y))
        assert _dump(r.last_step) == _dump(res.get_step(n - 1))
        assert _dump(r.initial_state) == _dump(res.get_step(0))


def _dump(s):
    return ({i: s.get_site_state(i) for i in s.site_ids()}, s.get_general_state())


def check_manual(case):
    from pylattica.core import SimulationResult

    s0, m = start(case)
    res = SimulationResult(s0)
    models = [m]
    for k, d in enumerate(case["diffs"]):
        d = list(d)
        update = to_batch(d)
        for _ in range(1 + case.get("again", []).count(k)):  # one object may be added several times
            res.add_step(update)
            models.append(apply_model(models[-1], d))
    if case["load"]:
        res.load_steps(case["load"])
    others = reloads(res)
    same(res, others)
    for r in others:
        for k, mo in enumerate(models):
            observe(r.get_step(k), mo)
        # the reloaded result can be continued
        r.add_step({5: {"a": 1}})
        assert r.last_step.get_site_state(5)["a"] == 1 and len(r) == len(models) + 1
    for k, mo in enumerate(models):
        observe(res.get_step(k), mo)
    full = any(d[0] in ("full", "general_only") and d[2] for d in case["diffs"])
    ups_ = sum(1 for d in case["diffs"] if any(d[1].values()))
    return len(models) > 2 and ups_ > 0, ["general_updates"] if full else []


def strat_run():
    return st.one_of(rules.sync_case(), rules.async_case())


def check_run(case):
    from pylattica.core import AsynchronousRunner, SynchronousRunner

    s0 = rules.build_state(case)
    if case["mode"] == "sync":
        res = SynchronousRunner().run(s0, rules.SyncRule(case), case["steps"])
    else:
        res = AsynchronousRunner().run(s0, rules.AsyncRule(case), case["steps"])
    same(res, reloads(res))
    return len(res) > 2, [case["mode"]] + (["general"] if res.last_step.get_general_state() != res.first_step.get_general_state() else [])


SUBS = [Sub("manual", strat_manual, check_manual, quick=700),
        Sub("run", strat_run, check_run, quick=500)]
