"""C31: random parts repeat under equal seeds."""
import json
import os
import random
import subprocess
import sys

from hypothesis import strategies as st

from . import rules
from .harness import HarnessError, Sub

RULE = ("case = a random setup, a sequence of stochastic neighbourhood queries, or a run that draws random numbers x "
        "seeds; evaluated twice in this process with unrelated work in between and once in another process with "
        "another hash seed; non-trivial = the outcome differs for some other seed")
ASSUMPTIONS = ["random numbers come from the random module and numpy's global generator, which the caller seeds",
               "runs that draw random numbers inside parallel workers are left out: which worker takes which site is "
               "the operating system's choice"]
SEEDS = st.integers(0, 10**6)


_kept = {}


def kept(key, make):
    """Some outcomes use the objects that earlier ones used."""
    if _kept.get("on"):
        if key not in _kept:
            _kept[key] = make()
        return _kept[key]
    return make()


def plain(state):
    return [[[i, state.get_site_state(i)] for i in sorted(state.site_ids())], state.get_general_state()]


# ------------------------------------------------------------------ setups

@st.composite
def strat_setups(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    size = draw(st.integers(3, 8 if dim == 2 else 4))
    if draw(st.integers(0, 4)) == 0:
        size = 17 if dim == 2 else 6
    kind = draw(st.sampled_from(["noise", "particles", "sites", "sites"]))
    return {"kind": kind, "dim": dim, "size": size, "seed": draw(SEEDS),
            "phases": ["P%d" % k for k in range(draw(st.sampled_from([2, 3, 5, 1])))],
            "num": draw(st.integers(1, 6)), "radius": draw(st.sampled_from([1, 1.5, 2])),
            "buffer": draw(st.sampled_from([0, None, 0]))}


def run_setups(case):
    from pylattica.discrete import PhaseSet
    from pylattica.structures.square_grid import DiscreteGridSetup

    ph = case["phases"]
    setup = kept(("setup", case["dim"], *ph), lambda: DiscreteGridSetup(PhaseSet(ph + ["bg"]), dim=case["dim"]))
    if case["kind"] == "noise":
        sim = setup.setup_noise(case["size"], ph)
    elif case["kind"] == "particles":
        sim = setup.setup_random_particles(case["size"], case["radius"], case["num"], "bg", ph)
    else:
        sim = setup.setup_random_sites(case["size"], case["num"], "bg", {p: k + 1 for k, p in enumerate(ph)},
                                       buffer=case["buffer"])
    return plain(sim.state)


# ------------------------------------------------------------------ growth

@st.composite
def strat_growth(draw):
    dim = draw(st.sampled_from([2, 2, 2, 3]))
    return {"dim": dim, "size": draw(st.integers(4, 8 if dim == 2 else 4)), "seed": draw(SEEDS),
            "nb": draw(st.sampled_from(["moore", "vn"])), "num": draw(st.integers(2, 6)),
            "phases": ["P%d" % k for k in range(draw(st.sampled_from([2, 3, 4])))]}


def run_growth(case):
    from pylattica.discrete import PhaseSet
    from pylattica.structures.square_grid import GrowthSetup
    from pylattica.structures.square_grid.neighborhoods import (MooreNbHoodBuilder, VonNeumannNbHood2DBuilder,
                                                                VonNeumannNbHood3DBuilder)

    nb = (MooreNbHoodBuilder(1, dim=case["dim"]) if case["nb"] == "moore" else
          VonNeumannNbHood2DBuilder(1) if case["dim"] == 2 else VonNeumannNbHood3DBuilder(1))
    setup = kept(("growth", case["dim"], *case["phases"]), lambda: GrowthSetup(PhaseSet(case["phases"] + ["bg"]), dim=case["dim"]))
    return plain(setup.grow(case["size"], case["num"], "bg", {p: 1 for p in case["phases"]}, nb, buffer=0).state)


# ------------------------------------------------------------------ queries

NBS = ["hex2", "hex3", "pent", "stoch", "nested", "class", "many"]


@st.composite
def strat_queries(draw):
    kind = draw(st.sampled_from(NBS))
    size = draw(st.integers(3, 5 if kind != "hex3" else 3))
    return {"kind": kind, "size": size, "seed": draw(SEEDS), "weights": draw(st.booleans()),
            "sites": draw(st.lists(st.integers(0, size * size - 1), min_size=12, max_size=24))}


def neighbourhood(kind, size):
    from pylattica.core.neighborhood_builders import (DistanceNeighborhoodBuilder, SiteClassNeighborhoodBuilder,
                                                      StochasticNeighborhoodBuilder)
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder
    from pylattica.structures.square_grid.neighborhoods import (MooreNbHoodBuilder,
                                                                PseudoHexagonalNeighborhoodBuilder2D,
                                                                PseudoHexagonalNeighborhoodBuilder3D,
                                                                PseudoPentagonalNeighborhoodBuilder,
                                                                VonNeumannNbHood2DBuilder)

    S = (SimpleSquare3DStructureBuilder() if kind == "hex3" else SimpleSquare2DStructureBuilder()).build(size)
    pair = StochasticNeighborhoodBuilder([MooreNbHoodBuilder(1, dim=2), VonNeumannNbHood2DBuilder(1)])
    b = {"hex2": PseudoHexagonalNeighborhoodBuilder2D, "hex3": PseudoHexagonalNeighborhoodBuilder3D,
         "pent": PseudoPentagonalNeighborhoodBuilder, "stoch": lambda: pair,
         "many": lambda: StochasticNeighborhoodBuilder(
             [DistanceNeighborhoodBuilder(r) for r in (1.1, 1.5, 2.1, 2.3, 2.9)] + [MooreNbHoodBuilder(1, dim=2)] * 2),
         "nested": lambda: StochasticNeighborhoodBuilder([pair, DistanceNeighborhoodBuilder(2.1)]),
         "class": lambda: SiteClassNeighborhoodBuilder({"_A": pair})}[kind]()
    return S, b.get(S)


def run_queries(case):
    nb = kept(("query", case["kind"], case["size"]), lambda: neighbourhood(case["kind"], case["size"])[1])
    rules.seeded(case["seed"])
    out = []
    for i in case["sites"]:
        got = nb.neighbors_of(i, include_weights=case["weights"])
        out.append([[int(x[0]), round(float(x[1]), 6)] for x in got] if case["weights"] else [int(x) for x in got])
    return out


# ------------------------------------------------------------------ runs

@st.composite
def strat_runs(draw):
    kind = draw(st.sampled_from(["async", "walk", "sync", "grow"]))
    size = draw(st.integers(3, 5))
    n = size * size
    return {"kind": kind, "size": size, "seed": draw(SEEDS),
            "nb": draw(st.sampled_from(["hex2", "pent", "stoch", "class"])),
            "init": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)),
            "steps": draw(st.integers(4, 20)) if kind not in ("sync", "grow") else draw(st.integers(1, 4))}


def run_runs(case):
    from pylattica.core import AsynchronousRunner, BasicController, SimulationState, SynchronousRunner

    kind = case["kind"]
    if kind == "grow":
        return run_grow(case)
    S, nb = kept(("run", case["nb"], case["size"]), lambda: neighbourhood(case["nb"], case["size"]))

    class Rule(BasicController):
        def get_state_update(self, site_id, prev_state):
            nbs = nb.neighbors_of(site_id)
            v = prev_state.get_site_state(site_id)["v"]
            if kind == "walk":  # swaps with a random neighbour, which comes next
                other = random.choice(nbs)
                w = prev_state.get_site_state(other)["v"]
                return {site_id: {"v": w}, other: {"v": v}}, [other]
            s = sum(prev_state.get_site_state(j)["v"] for j in nbs)
            return {"v": (v + s + 1) % 5}

    s0 = SimulationState()
    for i, v in zip(S.site_ids, case["init"]):
        s0.set_site_state(i, {"v": v})
    runner = SynchronousRunner() if kind == "sync" else AsynchronousRunner()
    rules.seeded(case["seed"])
    res = runner.run(s0, Rule(), case["steps"])
    return [plain(s) for s in res.steps()]


def run_grow(case):
    """A serial growth run whose neighbourhood is drawn at every query."""
    from pylattica.core import SimulationState, SynchronousRunner
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
    from pylattica.models.growth import GrowthController
    from pylattica.structures.square_grid import PseudoHexagonalNeighborhoodBuilder2D, SimpleSquare2DStructureBuilder

    def make():
        S = SimpleSquare2DStructureBuilder().build(case["size"])
        return S, GrowthController(PhaseSet(["bg", "P1", "P2", "P3"]), S, background_phase="bg",
                                   nb_builder=PseudoHexagonalNeighborhoodBuilder2D())

    S, ctl = kept(("grow", case["size"]), make)
    s0 = SimulationState()
    for k, (i, v) in enumerate(zip(S.site_ids, case["init"])):
        s0.set_site_state(i, {DISCRETE_OCCUPANCY: "P%d" % v if v and k % 3 == 0 else "bg"})
    rules.seeded(case["seed"])
    return [plain(s) for s in SynchronousRunner().run(s0, ctl, case["steps"]).steps()]


# ------------------------------------------------------------------ the check

RUN = {"setups": run_setups, "growth": run_growth, "queries": run_queries, "runs": run_runs}
_other = {}


def serve():
    """The other process: one case per line in, its outcome out."""
    for line in sys.stdin:
        name, case = json.loads(line)
        try:
            out = ["ok", outcome(name, case)]
        except Exception as e:  # noqa: BLE001 - told to the asking process
            out = ["error", repr(e)]
        real.write(json.dumps(out) + "\n")
        real.flush()


def outcome(name, case):
    rules.seeded(case["seed"])
    return json.loads(json.dumps(RUN[name](case)))


def elsewhere(name, case):
    """The outcome in another process with another hash seed."""
    p = _other.get(os.getpid())
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED="4711")
        code = ("import sys, os; sys.path[:] = %r; real_fd = os.dup(1); os.dup2(2, 1); from pbt import c31; "
                "c31.real = os.fdopen(real_fd, 'w'); c31.serve()" % (sys.path,))
        p = subprocess.Popen([sys.executable, "-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=env, text=True)
        _other.clear()
        _other[os.getpid()] = p
    try:
        p.stdin.write(json.dumps([name, case]) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ""
    except BaseException:  # the answer of an interrupted question would be taken for the next one's
        p.kill()
        raise
    if not line:
        raise HarnessError("the comparison process ended")
    return json.loads(line)


def disturb(case):
    """Unrelated work, some of it random."""
    rules.seeded(case["seed"] + 17)
    run_setups({"kind": "noise", "dim": 2, "size": 3, "phases": ["a", "b"]})
    run_queries({"kind": "stoch", "size": 3, "seed": case["seed"] + 5, "weights": False, "sites": [0, 1, 2]})
    random.random()


def check(name):
    def run(case):
        first = outcome(name, case)
        disturb(case)
        again = outcome(name, case)
        assert again == first, ("seed", case["seed"], "gave", first, "then", again)
        _kept.clear()
        _kept["on"] = True
        try:
            outcome(name, dict(case, seed=case["seed"] + 3))
            again = outcome(name, case)
        finally:
            _kept.clear()
        assert again == first, ("seed", case["seed"], "gave", first, "with objects used before", again)
        how, other = elsewhere(name, case)
        assert how == "ok", ("another process", other)
        assert other == first, ("seed", case["seed"], "gave", first, "in another process", other)
        differs = any(outcome(name, dict(case, seed=case["seed"] + 1 + k)) != first for k in range(3))
        if not differs and wide(name, case):
            more = [outcome(name, dict(case, seed=case["seed"] + 100 + k)) for k in range(20)]
            assert any(m != first for m in more), "the same outcome for two dozen seeds"
        return differs, [case.get("kind") or case.get("nb")]

    return run


def wide(name, case):
    """Whether two dozen equal outcomes cannot be a coincidence."""
    if name == "queries":
        return True  # at least a dozen independent choices of at least two
    if name == "setups":
        return case["kind"] != "noise" or len(case["phases"]) > 1
    if name == "runs":
        return case["kind"] != "walk" and len(set(case["init"])) > 1 and case["kind"] == "async"
    return True


SUBS = [Sub("setups", strat_setups, check("setups"), quick=150),
        Sub("queries", strat_queries, check("queries"), quick=100),
        Sub("runs", strat_runs, check("runs"), quick=100),
        Sub("growth", strat_growth, check("growth"), quick=16, thorough=300, shards=2, per_case_procs=8)]
