"""C30: runs continued from a recorded step."""
import os
import tempfile

from hypothesis import strategies as st

from . import rules
from .harness import Sub

RULE = ("case = generated rule x the steps at which the run is interrupted x the way the state is carried over (as it "
        "is, copied, through a result or simulation file) x old or new runner and controller; non-trivial = an "
        "interruption strictly inside a run, whose neighbouring steps differ (life and growth: whose previous step does)")
ASSUMPTIONS = ["the rule reads nothing but the state it is given, and what it stores survives JSON"]

CARRY = ["get_step", "last_step", "output", "file", "file", "json", "simulation", "simulation"]


def cuts_of(draw, steps):
    inside = st.integers(1, max(steps - 1, 1))
    return sorted(draw(st.lists(st.one_of(inside, inside, inside, st.integers(0, steps)), min_size=1, max_size=3)))


class Prepared(rules.SyncRule):
    """Needs its preparation hook before every first step."""

    ready = False

    def pre_run(self, initial_state):
        super().pre_run(initial_state)
        self.ready = True

    def get_state_update(self, site_id, prev_state):
        assert self.ready, "the rule is applied without having been prepared"
        return super().get_state_update(site_id, prev_state)


@st.composite
def strat_sync(draw):
    c = draw(rules.sync_case(max_sites=9, max_steps=8, min_sites=1, forms=[f for f in rules.SYNC_FORMS if f != "none"]))
    if c["steps"] < 2:
        c["steps"] = 4
    c["np"] = False
    c["cuts"] = cuts_of(draw, c["steps"])
    c["carry"] = draw(st.lists(st.sampled_from(CARRY), min_size=1, max_size=3))
    c["renew"] = draw(st.lists(st.booleans(), min_size=1, max_size=3))
    c["workers"] = draw(st.sampled_from([0] * 9 + [2, 3]))
    return c


def carry(how, res, at, struct):
    """The state of step `at` of `res`, handed over in the way `how` names."""
    from pylattica.core import SimulationResult
    from pylattica.core.simulation import Simulation

    import json

    if how == "get_step":
        return res.get_step(at)
    if how == "json":
        return SimulationResult.from_dict(json.loads(json.dumps(res.as_dict(), default=lambda o: o.as_dict()))).get_step(at)
    if how in ("file", "simulation"):
        d = tempfile.mkdtemp(prefix="pbt-resume-")
        p = os.path.join(d, "s.json")
        try:
            if how == "file":
                res.to_file(p)
                return SimulationResult.from_file(p).get_step(at)
            Simulation(res.get_step(at), struct).to_file(p)
            return Simulation.from_file(p).state
        finally:
            if os.path.exists(p):
                os.remove(p)
            os.rmdir(d)
    if at != len(res) - 1:
        return res.get_step(at)
    return res.last_step if how == "last_step" else res.output


def a_structure():
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder

    return SimpleSquare2DStructureBuilder().build(2)


def compare(case, full, part, at):
    """Steps of `part`, a run started at step `at`, are those of `full` from there."""
    for k in range(len(part)):
        assert rules.snapshot(part.get_step(k)) == full[at + k], \
            ("continued at", at, "step", at + k, rules.snapshot(part.get_step(k)), full[at + k])


def check_sync(case):
    from pylattica.core import SynchronousRunner

    n = case["steps"]
    struct = a_structure()
    mk = (lambda: SynchronousRunner(parallel=True, workers=case["workers"])) if case["workers"] else SynchronousRunner
    runner, ctl = mk(), Prepared(case)
    whole = SynchronousRunner().run(rules.build_state(case), Prepared(case), n)
    full = [rules.snapshot(whole.get_step(k)) for k in range(n + 1)]
    assert len(whole) == n + 1
    # every cut taken from the whole run, to its end
    for k, at in enumerate(case["cuts"]):
        res = runner.run(carry(case["carry"][k % len(case["carry"])], whole, at, struct), ctl, n - at)
        assert len(res) == n - at + 1
        compare(case, full, res, at)
        if case["renew"][k % len(case["renew"])]:
            runner, ctl = mk(), Prepared(case)
    # and one run in legs, each from the end of the one before
    at, state = 0, rules.build_state(case)
    legs = case["cuts"] + [n]
    for k, end in enumerate(legs):
        res = runner.run(state, ctl, end - at)
        assert len(res) == end - at + 1
        compare(case, full, res, at)
        state = carry(case["carry"][k % len(case["carry"])], res, end - at, struct)
        at = end
    assert rules.snapshot(state) == full[-1]
    inside = [c for c in case["cuts"] if 0 < c < n and full[c] != full[c - 1] and full[c] != full[c + 1]]
    return bool(inside), sorted(set(case["carry"])) + (["parallel"] if case["workers"] else [])


@st.composite
def strat_async(draw):
    c = draw(rules.async_case(max_sites=7, max_steps=14))
    c["forms"] = [f for f in c["forms"] if f not in ("none", "grow", "found")] or ["tick"]
    c["np"] = False
    c["next"] = [None]
    c["provider"] = [0]
    c["cycle"] = True
    c["steps"] = draw(st.integers(3, 14))
    c["stride"] = draw(st.integers(1, 5))
    c["cuts"] = cuts_of(draw, c["steps"])
    c["carry"] = draw(st.lists(st.sampled_from(CARRY), min_size=1, max_size=3))
    c["renew"] = draw(st.lists(st.booleans(), min_size=1, max_size=3))
    return c


class StateChooses(rules.AsyncRule):
    """Chooses the next site from the state alone; an update is always counted."""

    def get_random_site(self, state):
        ids = self.case["ids"]
        at = state.get_general_state().get("turn", 0) * self.case["stride"]
        return ids[(at + sum(state.get_site_state(i)["v"] for i in ids)) % len(ids)]

    def get_state_update(self, site_id, prev_state):
        from pylattica.core.constants import GENERAL, SITES

        _, _, sites, gen = self._apply(site_id, prev_state)
        gen = dict(gen, turn=prev_state.get_general_state().get("turn", 0) + 1)
        return {SITES: dict(sites), GENERAL: gen}


def check_async(case):
    from pylattica.core import AsynchronousRunner

    n = case["steps"]
    struct = a_structure()
    runner, ctl = AsynchronousRunner(), StateChooses(case)
    whole = runner.run(rules.build_state(case), StateChooses(case), n)
    full = [rules.snapshot(whole.get_step(k)) for k in range(n + 1)]
    for k, at in enumerate(case["cuts"]):
        res = runner.run(carry(case["carry"][k % len(case["carry"])], whole, at, struct), ctl, n - at)
        assert len(res) == n - at + 1
        compare(case, full, res, at)
        if case["renew"][k % len(case["renew"])]:
            runner, ctl = AsynchronousRunner(), StateChooses(case)
    at, state = 0, rules.build_state(case)
    for k, end in enumerate(case["cuts"] + [n]):
        res = runner.run(state, ctl, end - at)
        assert len(res) == end - at + 1
        compare(case, full, res, at)
        state = carry(case["carry"][k % len(case["carry"])], res, end - at, struct)
        at = end
    assert rules.snapshot(state) == full[-1]
    inside = [c for c in case["cuts"] if 0 < c < n]
    return bool(inside) and len(case["ids"]) > 1, sorted(set(case["carry"]))


@st.composite
def strat_model(draw):
    size = draw(st.integers(3, 7))
    kind = draw(st.sampled_from(["life", "life", "growth"]))
    n = size * size
    if kind == "life":
        cells = draw(st.lists(st.sampled_from(["alive", "dead", "dead"]), min_size=n, max_size=n))
    else:
        size = max(size, 4)
        n = size * size
        cells = ["bg"] * n
        for k in range(draw(st.integers(1, 3))):
            cells[draw(st.integers(0, n - 1))] = "P%d" % k
    steps = draw(st.integers(2, 8))
    return {"kind": kind, "size": size, "cells": cells, "steps": steps, "cuts": cuts_of(draw, steps),
            "variant": draw(st.sampled_from(["B3/S23", "B3/S23", "B36/S23", "B2/S", "B0/S8", "B4678/S35678"])),
            "carry": draw(st.lists(st.sampled_from(CARRY), min_size=1, max_size=3)),
            "renew": draw(st.lists(st.booleans(), min_size=1, max_size=3))}


def check_model(case):
    from pylattica.core import SimulationState, SynchronousRunner
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
    from pylattica.models.game_of_life import GameOfLifeController
    from pylattica.models.growth import GrowthController
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder

    struct = SimpleSquare2DStructureBuilder().build(case["size"])
    s0 = SimulationState()
    for i, c in zip(sorted(struct.site_ids), case["cells"]):
        s0.set_site_state(i, {DISCRETE_OCCUPANCY: c})

    def ctl():
        if case["kind"] == "life":
            return GameOfLifeController(struct, case["variant"])
        return GrowthController(PhaseSet(["bg", "P0", "P1", "P2"]), struct, background_phase="bg")

    n = case["steps"]
    runner, c = SynchronousRunner(), ctl()
    whole = runner.run(s0, c, n)
    full = [rules.snapshot(whole.get_step(k)) for k in range(n + 1)]
    for k, at in enumerate(case["cuts"]):
        if case["renew"][k % len(case["renew"])]:
            runner, c = SynchronousRunner(), ctl()
        res = runner.run(carry(case["carry"][k % len(case["carry"])], whole, at, struct), c, n - at)
        assert len(res) == n - at + 1
        compare(case, full, res, at)
    return any(0 < x < n and full[x] != full[x - 1] for x in case["cuts"]), [case["kind"]]


SUBS = [Sub("sync", strat_sync, check_sync, quick=500),
        Sub("async", strat_async, check_async, quick=500),
        Sub("models", strat_model, check_model, quick=200)]
