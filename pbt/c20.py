"""C20: random grid setups."""
import random
from fractions import Fraction

from hypothesis import strategies as st

from . import rules
from .c19 import cells_of
from .harness import Sub

RULE = ("case = setup arguments x seed of both random generators, judged by predicates on the produced state; "
        "non-trivial = at least two sites placed with a buffer or two phases; infeasible counts must raise")
ASSUMPTIONS = ["only clearly feasible counts (buffers exclude at most half the grid, or there is no buffer) and "
               "counts that cannot be placed by volume are generated; between them either outcome is right",
               "seed phases are not the background phase"]


@st.composite
def strat_sites(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    size = draw(st.sampled_from({2: [9, 6, 7, 8, 10, 2, 3, 4, 5, 12], 3: [4, 5, 3, 2]}[dim]))
    buffer = draw(st.sampled_from([1, None, 0, 1, 2, 3, "default"]))
    if draw(st.integers(0, 7)) == 0:  # wide buffers
        buffer = draw(st.sampled_from([4, 5, 6]))
        size = 2 * buffer + draw(st.integers(1, 7)) if dim == 2 else 9
        buffer = 4 if dim == 3 else buffer
    b = 2 if buffer == "default" else (buffer or 0)
    n = size ** dim
    if b == 0:
        cap = n
    else:
        cap = max(1, n // (2 * b + 1) ** dim // 2 + 1) if n >= (2 * b + 1) ** dim else 1
    names = ["P%d" % k for k in range(draw(st.sampled_from([2, 3, 1, 4, 6])))]
    num = draw(st.sampled_from([k for k in range(min(2, cap), cap + 1)] * 3 + [0, min(1, cap)]))
    if b == 0 and draw(st.integers(0, 4)) == 0:  # every cell, or all but one
        num = n - draw(st.integers(0, 1))
    elif draw(st.integers(0, 5)) == 0:  # a share of the cells, such as 0.05 * size ** 2
        num = max(0, num + draw(st.sampled_from([-0.4, -0.25, 0.25, 0.4])))
    amt = st.one_of(st.sampled_from([1, 1, 2, 3, 5, 10, 100]), st.sampled_from([0.1, 0.5, 0.25, 0.05, 1.5]))
    if draw(st.integers(0, 4)) == 0:
        amt = st.sampled_from([0.001, 0.003, 0.01, 0.02])
    amts = {p: draw(amt) for p in names}
    if draw(st.integers(0, 3)) == 0 and len(names) > 1:  # a phase that gets nothing
        amts[names[draw(st.integers(0, len(names) - 1))]] = 0
    return {"dim": dim, "size": size, "buffer": buffer, "num": num,
            "amts": amts, "bg": draw(st.sampled_from(["bg", "VACANT"])),
            "seed": draw(st.integers(0, 10**6))}


def place(case):
    from pylattica.discrete import PhaseSet
    from pylattica.structures.square_grid import DiscreteGridSetup

    rules.seeded(case["seed"])
    setup = DiscreteGridSetup(PhaseSet([case["bg"]] + sorted(case["amts"])), dim=case["dim"])
    kw = {} if case["buffer"] == "default" else {"buffer": case["buffer"]}
    return setup.setup_random_sites(case["size"], case["num"], case["bg"], dict(case["amts"]), **kw)


def check_sites(case):
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC

    sim = place(case)
    size, dim = case["size"], case["dim"]
    at = cells_of(sim.structure)
    assert len(at) == size ** dim and sorted(sim.state.site_ids()) == sorted(at.values())
    occ = {p: sim.state.get_site_state(i)[OCC] for p, i in at.items()}
    chosen = sorted(p for p, o in occ.items() if o != case["bg"])
    num = round(case["num"])
    assert len(chosen) == num, ("selected", len(chosen), "requested", case["num"])
    assert {occ[p] for p in chosen} <= set(case["amts"])
    total = sum(Fraction(a) for a in case["amts"].values())
    for ph, a in case["amts"].items():
        got = sum(occ[p] == ph for p in chosen)
        ideal = Fraction(a) / total * num
        assert abs(got - ideal) < 1, ("phase", ph, "has", got, "share", float(ideal), case["amts"])
    b = 2 if case["buffer"] == "default" else (case["buffer"] or 0)
    for k, p in enumerate(chosen):
        for q in chosen[:k]:
            d = max(min((x - y) % size, (y - x) % size) for x, y in zip(p, q))
            assert d > b, ("sites", p, q, "distance", d, "buffer", b)
    return len(chosen) > 1 and (b > 0 or len(case["amts"]) > 1), ["buffer_%s" % case["buffer"], "dim%d" % dim]


@st.composite
def strat_infeasible(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    size = draw(st.integers(1, 4 if dim == 2 else 2))
    buffer = draw(st.sampled_from([None, 0, 1, 2, "default"]))
    b = 2 if buffer == "default" else (buffer or 0)
    n = size ** dim
    least = 2 if size < b + 1 else n // (b + 1) ** dim + 1
    return {"dim": dim, "size": size, "buffer": buffer, "num": draw(st.integers(least, least + 2)),
            "amts": {"P0": 1, "P1": 2}, "bg": "bg", "seed": draw(st.integers(0, 10**6))}


def check_infeasible(case):
    try:
        place(case)
    except RuntimeError:
        return True, ["refused_dim%d" % case["dim"]]
    raise AssertionError("no RuntimeError although the sites do not fit")


@st.composite
def strat_noise(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    size = draw(st.integers(1, 8 if dim == 2 else 4))
    if draw(st.integers(0, 4)) == 0:
        size = draw(st.sampled_from([13, 17, 20, 25])) if dim == 2 else draw(st.sampled_from([6, 7]))
    return {"dim": dim, "size": size,
            "phases": ["P%d" % k for k in range(draw(st.sampled_from([1, 2, 3, 5, 8, 12])))], "seed": draw(st.integers(0, 10**6))}


def check_noise(case):
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.structures.square_grid import DiscreteGridSetup

    rules.seeded(case["seed"])
    size, dim, phases = case["size"], case["dim"], case["phases"]
    setup = DiscreteGridSetup(PhaseSet(phases), dim=dim)
    need = 40 * len(phases)
    at_first = {}
    seen, total, last = set(), 0, []
    while total < need or len(last) < need:
        sim = setup.setup_noise(size, list(phases))
        at = cells_of(sim.structure)
        assert len(at) == size ** dim and sorted(sim.state.site_ids()) == sorted(at.values())
        for p, i in at.items():
            o = sim.state.get_site_state(i)[OCC]
            assert o in phases, ("cell", p, o)
            seen.add(o)
            at_first.setdefault(p, set())
        far = max(at)
        last.append(sim.state.get_site_state(at[far])[OCC])
        total += len(at)
        if len(at) > 4 and total >= need:
            break
    assert seen == set(phases), ("never assigned", set(phases) - seen)
    return len(phases) > 1, ["dim%d" % dim]


@st.composite
def strat_particles(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    return {"dim": dim, "size": draw(st.sampled_from([5, 6, 7, 4, 3, 2, 1] if dim == 2 else [4, 3, 2, 1])),
            "radius": draw(st.sampled_from([1.5, 1, 2, 2.25, 3])), "num": draw(st.sampled_from([2, 3, 2, 1, 0])),
            "phases": ["P%d" % k for k in range(draw(st.sampled_from([2, 3, 1])))],
            "by_name": draw(st.booleans()), "seed": draw(st.integers(0, 10**6))}


def explained(occ, bg, cells, balls, phases, k):
    """Can `occ` arise from exactly k balls dropped one after another?

    The last ball is intact; undoing it makes its cells arbitrary.
    """
    index = {p: n for n, p in enumerate(cells)}
    sets = [sum(1 << index[q] for q in b) for b in balls]
    by = {ph: sum(1 << n for n, p in enumerate(cells) if occ[p] == ph) for ph in phases}
    todo0 = sum(by.values())
    over = [[s for s in sets if s >> n & 1] for n in range(len(cells))]
    biggest = max([bin(s).count("1") for s in sets] or [0])
    dead = set()

    def go(todo, wild, left):
        if not todo:
            return True
        if bin(todo).count("1") > left * biggest or (todo, left) in dead:
            return False
        for ph in phases:
            ok = by[ph] | wild
            # a last ball covers whatever is left, the lowest cell included
            for s in sets if left > 1 else over[(todo & -todo).bit_length() - 1]:
                if s & todo and not s & ~ok and go(todo & ~s, wild | s, left - 1):
                    return True
        dead.add((todo, left))
        return False

    assert todo0 or k == 0, "no particle at all"
    return go(todo0, 0, k)


def check_particles(case):
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.structures.square_grid import DiscreteGridSetup

    rules.seeded(case["seed"])
    size, dim = case["size"], case["dim"]
    # the particles' phase may be given by its name
    phases = case["phases"][0] if len(case["phases"]) == 1 and case.get("by_name") else list(case["phases"])
    sim = DiscreteGridSetup(PhaseSet(["bg"] + case["phases"]), dim=dim).setup_random_particles(
        size, case["radius"], case["num"], "bg", phases)
    at = cells_of(sim.structure)
    assert len(at) == size ** dim and sorted(sim.state.site_ids()) == sorted(at.values())
    occ = {p: sim.state.get_site_state(i)[OCC] for p, i in at.items()}
    assert set(occ.values()) <= {"bg", *case["phases"]}
    r2 = Fraction(case["radius"]) ** 2
    cells = sorted(at)
    balls = [[q for q in cells if sum((x - y) ** 2 for x, y in zip(p, q)) < r2] for p in cells]
    assert explained(occ, "bg", cells, balls, case["phases"], case["num"]), (
        "not a union of", case["num"], "balls of radius", case["radius"],
        {str(p): o for p, o in occ.items() if o != "bg"})
    return case["num"] > 1 and size > 2, ["num_%d" % case["num"], "dim%d" % dim]


def strat_spread():
    return st.fixed_dictionaries({"dim": st.sampled_from([2, 3]), "num": st.integers(1, 5), "seed": st.integers(0, 10**6)})


def check_spread(case):
    """Over many runs single-cell particles reach every cell, every phase, and
    as many distinct cells as requested."""
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.structures.square_grid import DiscreteGridSetup

    rules.seeded(case["seed"])
    size, dim, k = {2: 4, 3: 3}[case["dim"]], case["dim"], case["num"]
    setup = DiscreteGridSetup(PhaseSet(["bg", "X", "Y"]), dim=dim)
    cells, phases, most, dropped = set(), set(), 0, 0
    while dropped < 900:
        sim = setup.setup_random_particles(size, 1, k, "bg", ["X", "Y"])
        at = cells_of(sim.structure)
        hit = {p: sim.state.get_site_state(i)[OCC] for p, i in at.items()}
        hit = {p: o for p, o in hit.items() if o != "bg"}
        assert 1 <= len(hit) <= k
        cells |= set(hit)
        phases |= set(hit.values())
        most = max(most, len(hit))
        dropped += k
    assert most == k, ("at most", most, "particles of", k)
    assert phases == {"X", "Y"}, phases
    assert cells == set(at), ("never a centre", set(at) - cells)
    return True, ["spread%d" % dim]


SUBS = [Sub("sites", strat_sites, check_sites, quick=500, shards=6),
        Sub("infeasible", strat_infeasible, check_infeasible, quick=60, thorough=600),
        Sub("noise", strat_noise, check_noise, quick=120),
        Sub("particles", strat_particles, check_particles, quick=400),
        Sub("spread", strat_spread, check_spread, quick=8, thorough=100)]
