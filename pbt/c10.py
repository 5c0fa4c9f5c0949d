"""C10: synchronous runs."""
from . import rules
from .harness import Sub

RULE = ("case = synthetic rule (arithmetic over neighbour table, several forms of returned update) x initial state x "
        "steps; non-trivial = at least two steps, two sites, and a rule whose result depends on a neighbour")
ASSUMPTIONS = ["rules are deterministic, and no two sites write different values to the same key in one step "
               "(such rules need the asynchronous runner, see Runner's documentation)"]


def judge_run(case, res, hist, orig, before):
    n = case["steps"]
    assert len(res) == n + 1, ("length", len(res), "steps", n)
    for k in range(n + 1):
        got = rules.snapshot(res.get_step(k))
        assert got == hist[k], ("step", k, got, hist[k])
    assert rules.snapshot(res.last_step) == hist[-1]
    assert rules.snapshot(res.first_step) == hist[0]
    assert rules.snapshot(res.initial_state) == hist[0]
    assert rules.snapshot(res.output) == hist[-1], ("output", rules.snapshot(res.output), hist[-1])
    assert rules.snapshot(orig) == before, "the caller's state was modified"


def check(case):
    from pylattica.core import SynchronousRunner

    s0 = rules.build_state(case)
    before = rules.snapshot(s0)
    ctl = rules.SyncRule(case, log=True)
    res = rules.run(SynchronousRunner(), s0, ctl, case)
    hist = rules.interpret_sync(case)
    judge_run(case, res, hist, s0, before)
    # one application per site and step, against the complete previous state
    n = len(case["ids"])
    total = sum(len(hist[k][0]) for k in range(case["steps"]))
    assert len(ctl.log) == total, ("applications", len(ctl.log), "expected", total)
    at = 0
    for k in range(case["steps"]):
        part = ctl.log[at:at + len(hist[k][0])]
        at += len(part)
        assert sorted(i for i, _ in part) == sorted(hist[k][0]), ("step", k, [i for i, _ in part])
        for i, seen in part:
            assert seen == hist[k], ("site", i, "of step", k, "saw", seen, "expected", hist[k])
    assert ctl.pre_runs == [(hist[0], 0)], ctl.pre_runs
    assert len(ctl.results) == 1 and res is ctl.results[0], "not the result the controller instantiated"
    # a second run with the same runner starts from scratch, and so does one
    # from another state with as many sites
    runner = SynchronousRunner()
    other = rules.relabel(case)
    assert rules.snapshot(runner.run(rules.build_state(other), rules.SyncRule(other), other["steps"]).last_step) == \
        rules.interpret_sync(other)[-1]
    for _ in range(2):
        res2 = runner.run(s0, rules.SyncRule(case), case["steps"])
        assert rules.snapshot(res2.last_step) == hist[-1], ("another run of this runner", rules.snapshot(res2.last_step))
    # and so does one with the same rule object as well, prepared for the new state
    again = rules.SyncRule(case)
    for _ in range(2):
        assert rules.snapshot(runner.run(s0, again, case["steps"]).last_step) == hist[-1]
    assert len(again.pre_runs) == 2 and all(s == hist[0] for s, _ in again.pre_runs), again.pre_runs
    judge_run(case, res, hist, s0, before)
    dep = case["coef"][1] and any(case["nbrs"])
    labels = sorted(set(case["forms"]))
    if len(hist[-1][0]) > n:
        labels.append("sites_created")
    if case["steps"] > 10:
        labels.append("long")
    return bool(case["steps"] >= 2 and n >= 2 and dep), labels


def check_large(c):
    from pylattica.core import SynchronousRunner

    case = rules.expand(c)
    s0 = rules.build_state(case)
    before = rules.snapshot(s0)
    res = SynchronousRunner().run(s0, rules.SyncRule(case), case["steps"])
    hist = rules.interpret_sync(case)
    if case["steps"] < 10:
        judge_run(case, res, hist, s0, before)
    else:
        assert len(res) == len(hist)
        for k, s in enumerate(res.steps()):
            assert rules.snapshot(s) == hist[k], ("step", k)
        assert rules.snapshot(s0) == before
    return True, ["sites=%d" % c["n"]]


SUBS = [Sub("large", rules.large_case, check_large, quick=30),
        Sub("serial", lambda: rules.sync_case(min_sites=0), check, quick=1500)]
