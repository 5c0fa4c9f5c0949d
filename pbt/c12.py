"""C12: asynchronous runs."""
import random

from hypothesis import strategies as st

from . import rules
from .harness import Sub

RULE = ("case = synthetic rule with next-site lists x scripted or default site provider x steps; non-trivial = at "
        "least three applications, at least one of them a queued next site; choice sub-check: state ids x seed, all "
        "sites must be chosen within 60 n ln-sized runs")
ASSUMPTIONS = ["providers return an int, a list of ints, or nothing (None or an empty list); next sites are lists",
               "the default choice uses the random module; 'every site can be chosen' is decided by a run long "
               "enough that a uniform choice misses some site with probability below 1e-12"]


def check(case):
    from pylattica.core import AsynchronousRunner

    s0 = rules.build_state(case)
    before = rules.snapshot(s0)
    ctl = rules.AsyncRule(case, log=True)
    runner = AsynchronousRunner()
    other = rules.relabel(case)  # a run before on the same runner leaves nothing behind
    try:
        runner.run(rules.build_state(other), rules.AsyncRule(other), other["steps"])
    except RuntimeError:
        pass
    if case["provider"] == "default":
        rules.seeded(case["seed"])
    res = rules.run(runner, s0, ctl, case)
    visited = [i for i, _ in ctl.log]
    for i in visited:
        assert i in case["ids"] or i - rules.BORN in case["ids"], ("visited a site that is not in the state", i)
    hist, order, asked = rules.interpret_async(case, visited)
    if case["provider"] == "default":
        assert len(visited) == case["steps"], (len(visited), case["steps"])
    assert visited == order, ("visited", visited, "expected", order)
    assert len(res) == len(hist), ("recorded", len(res) - 1, "applications", len(hist) - 1)
    for k, (i, seen) in enumerate(ctl.log):
        assert i in hist[k][0], ("visited a site that is not in the state", i)
        assert seen == hist[k], ("application", k, "of site", i, "saw", seen, "expected", hist[k])
    for k, h in enumerate(hist):
        if len(hist) > 100 and k % 29:
            continue
        assert rules.snapshot(res.get_step(k)) == h, ("step", k, rules.snapshot(res.get_step(k)), h)
    assert [rules.snapshot(s) for s in res.steps()] == hist
    assert rules.snapshot(res.last_step) == hist[-1]
    assert rules.snapshot(res.output) == hist[-1]
    assert rules.snapshot(s0) == before, "the caller's state was modified"
    # the controller is asked exactly when nothing is queued, with the current
    # state (it may have been asked once more after the last step)
    got = [k for k, _ in ctl.asked]
    assert got[:len(asked)] == asked and len(got) <= len(asked) + 1, ("asked before applications", got, asked)
    for k, seen in ctl.asked:
        assert seen == hist[k], ("provider saw", seen, "expected", hist[k])
    assert ctl.pre_runs == [(hist[0], 0)]
    assert len(ctl.results) == 1 and res is ctl.results[0]
    early = len(order) < case["steps"]
    queued = len(order) > len(asked)
    labels = []
    if early:
        labels.append("ended_early")
    if queued:
        labels.append("queued_next")
    if case["provider"] == "default":
        labels.append("default_choice")
    return len(order) >= 3 and queued, labels


@st.composite
def strat_none(draw):
    c = draw(rules.async_case())
    c["provider"] = []
    c["cycle"] = False
    c["stop"] = draw(st.sampled_from([None, []]))
    c["steps"] = draw(st.integers(1, 5))
    return c


def check_none(case):
    from pylattica.core import AsynchronousRunner

    s0 = rules.build_state(case)
    ctl = rules.AsyncRule(case, log=True)
    try:
        AsynchronousRunner().run(s0, ctl, case["steps"])
    except RuntimeError:
        pass
    else:
        raise AssertionError("no RuntimeError although no site was provided at the start")
    assert not ctl.log, "the rule was applied"
    return True, ["no_site"]


@st.composite
def strat_choice(draw):
    n = draw(st.integers(1, 8))
    return {"ids": draw(st.one_of(st.just(list(range(n))),
                                  st.lists(st.integers(0, 1000), min_size=n, max_size=n, unique=True))),
            "seed": draw(st.integers(0, 10**6))}


def check_choice(case):
    from pylattica.core import AsynchronousRunner, BasicController, SimulationState

    ids = case["ids"]

    class Touch(BasicController):
        def __init__(self):
            self.seen = []

        def get_state_update(self, site_id, prev_state):
            self.seen.append(site_id)
            return {"n": 1}

    s0 = SimulationState()
    for i in ids:
        s0.set_site_state(i, {"n": 0})
    steps = 40 * len(ids)
    random.seed(case["seed"])
    ctl = Touch()
    res = AsynchronousRunner().run(s0, ctl, steps)
    assert len(ctl.seen) == steps and len(res) == steps + 1
    extra = set(ctl.seen) - set(ids)
    assert not extra, ("chosen sites that are not in the state", sorted(extra))
    assert sorted(res.last_step.site_ids()) == sorted(ids)
    missed = set(ids) - set(ctl.seen)
    assert not missed, ("never chosen", sorted(missed))
    return len(ids) > 1, ["contiguous" if ids == list(range(len(ids))) else "sparse_ids"]


SUBS = [Sub("queue", lambda: rules.async_case(long=True), check, quick=1200),
        Sub("no_site", strat_none, check_none, quick=100),
        Sub("choice", strat_choice, check_choice, quick=150)]
