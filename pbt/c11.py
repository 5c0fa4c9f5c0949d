"""C11: parallel runs equal serial runs."""
from hypothesis import strategies as st

from . import rules
from .c10 import judge_run
from .harness import Sub

RULE = ("case = synthetic rule x workers (1-13 or one per CPU) x per-site delays that skew which worker takes which "
        "batch, or a built-in automaton on a grid; non-trivial = at least two workers, two steps and more than one "
        "site")
ASSUMPTIONS = ["the assignment of batches to worker processes is the operating system's; the generated delays and "
               "repetitions skew it, they do not enumerate it",
               "rules as in C10"]


@st.composite
def strat_rule(draw):
    c = draw(rules.sync_case(max_sites=12, max_steps=5, min_sites=0,
                             forms=rules.SYNC_FORMS + ["clash", "clash", "clashall", "clashall"]))
    if draw(st.integers(0, 3)) == 0:  # the number of sites doubles during the run
        c["forms"] = draw(st.sampled_from([["grow"], ["grow", "grow", "tick"]]))
    c["workers"] = draw(st.sampled_from([1, 2, 2, 3, 4, 5, 6, None, 8, 10, 13] if c["forms"][0] != "grow" else [2, 4, 6, 7, 8, 10, 13, None]))
    c["sleeps"] = draw(st.one_of(st.just([0]), st.lists(st.sampled_from([0, 0, 1, 4]), min_size=1, max_size=6)))
    return c


def check_rule(case):
    from pylattica.core import SynchronousRunner

    s0 = rules.build_state(case)
    before = rules.snapshot(s0)
    runner = SynchronousRunner(parallel=True, workers=case["workers"])
    res = rules.run(runner, s0, rules.SyncRule(case, sleeps=case["sleeps"]), case)
    ser = SynchronousRunner().run(s0, rules.SyncRule(case), case["steps"])
    hist = [rules.snapshot(ser.get_step(k)) for k in range(case["steps"] + 1)]
    judge_run(case, res, hist, s0, before)
    assert ser.output == res.output
    # the same runner again, from the same state
    res2 = runner.run(s0, rules.SyncRule(case, sleeps=case["sleeps"]), case["steps"])
    judge_run(case, res2, hist, s0, before)
    w = case["workers"]
    labels = ["workers_%s" % w]
    if w and w > len(case["ids"]):
        labels.append("more_workers_than_sites")
    if {"clash", "clashall"} & set(case["forms"]):
        labels.append("conflicting_writes")
    if any(case["sleeps"]):
        labels.append("delayed")
    return (w is None or w > 1) and case["steps"] >= 2 and len(case["ids"]) > 1, labels


@st.composite
def strat_large(draw):
    c = draw(rules.large_case())
    if c["n"] < 10:
        c["steps"] = 40
    c["workers"] = draw(st.sampled_from([1, 2, 3, 7, None, 12]))
    return c


def check_large(c):
    from pylattica.core import SynchronousRunner

    case = rules.expand(c)
    s0 = rules.build_state(case)
    before = rules.snapshot(s0)
    res = SynchronousRunner(parallel=True, workers=c["workers"]).run(s0, rules.SyncRule(case), case["steps"])
    judge_run(case, res, rules.interpret_sync(case), s0, before)
    return True, ["sites=%d" % c["n"], "workers_%s" % c["workers"]]


@st.composite
def strat_model(draw):
    size = draw(st.sampled_from([3, 4, 5, 6, 7] * 2 + [12, 17]))
    kind = draw(st.sampled_from(["life", "growth", "growth"]))
    n = size * size
    if kind == "life":
        few = draw(st.lists(st.sampled_from(["alive", "dead"]), min_size=min(n, 50), max_size=50))
        cells = [few[(k + k * k // 50) % len(few)] for k in range(n)]
    else:
        cells = ["bg"] * n
        for k in range(draw(st.integers(1, 6))):
            cells[draw(st.integers(0, n - 1))] = "P%d" % (k % 3)
    return {"kind": kind, "size": size, "cells": cells, "steps": draw(st.integers(2, 6)),
            "workers": draw(st.sampled_from([2, 3, 4, 7, None]))}


def check_model(case):
    from pylattica.core import SimulationState, SynchronousRunner
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
    from pylattica.models.game_of_life import GameOfLifeController
    from pylattica.models.growth import GrowthController
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder

    S = SimpleSquare2DStructureBuilder().build(case["size"])
    s0 = SimulationState()
    for i, c in zip(sorted(S.site_ids), case["cells"]):
        s0.set_site_state(i, {DISCRETE_OCCUPANCY: c})
    before = rules.snapshot(s0)

    def ctl():
        if case["kind"] == "life":
            return GameOfLifeController(S)
        return GrowthController(PhaseSet(["bg", "P0", "P1", "P2"]), S, background_phase="bg")

    ser = SynchronousRunner().run(s0, ctl(), case["steps"])
    res = SynchronousRunner(parallel=True, workers=case["workers"]).run(s0, ctl(), case["steps"])
    assert len(ser) == len(res) == case["steps"] + 1
    for k in range(case["steps"] + 1):
        assert rules.snapshot(ser.get_step(k)) == rules.snapshot(res.get_step(k)), ("step", k)
    assert rules.snapshot(res.output) == rules.snapshot(ser.last_step)
    assert rules.snapshot(s0) == before
    return True, [case["kind"]]


SUBS = [Sub("large", strat_large, check_large, quick=12, per_case_procs=4),
        Sub("rules", strat_rule, check_rule, quick=160, thorough=4000, shards=4, per_case_procs=2),
        Sub("models", strat_model, check_model, quick=60, thorough=1500, shards=2, per_case_procs=2)]
