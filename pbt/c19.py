"""C19: deterministic grid setups."""
import copy
import itertools
from fractions import Fraction

from hypothesis import strategies as st

from .harness import Sub

RULE = ("case = setup kind x dimension x size x phases x radius, centre or coordinates (quarters of a cell), compared "
        "cell by cell with exact rational arithmetic; non-trivial = both phases occur")
ASSUMPTIONS = ["radii and centres are multiples of 1/4 (exactly representable), coordinates name distinct cells"]


def quarters(lo, hi):
    return st.integers(lo * 4, hi * 4).map(lambda k: k / 4)


@st.composite
def strat(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    hi = {2: 10, 3: 6}[dim]
    kind = draw(st.sampled_from(["solid", "interface", "particle", "particle", "coords", "coords", "add", "add"]))
    size = draw(st.sampled_from(list(range(1, hi + 1)) * 2 + {2: [11, 13, 20, 23, 26, 33], 3: [8, 9]}[dim]))
    c = {"kind": kind, "dim": dim, "size": size, "default_dim": draw(st.booleans())}
    if kind in ("particle", "add"):
        c["radius"] = draw(st.one_of(st.integers(0, size + 1), quarters(0, size), st.just(size / 2)))
    if kind == "add":
        c["center"] = draw(st.lists(st.one_of(st.sampled_from(list(range(size))), quarters(-2, size + 2)),
                                    min_size=dim, max_size=dim))
        c["old"] = draw(st.lists(st.integers(0, 2), min_size=4, max_size=9))
        if draw(st.integers(0, 2)) == 0:
            c["shape"] = draw(st.lists(st.integers(1, hi), min_size=dim, max_size=dim))
        c["before"] = draw(st.booleans())  # the setup has served another structure
        c["second"] = draw(st.booleans())
        c["every"] = draw(st.sampled_from([1, 1, 2, 3]))  # only every so many sites have a state
    if kind == "coords":
        c["all"] = draw(st.integers(0, 3)) == 0  # every cell is listed
        cell = st.lists(st.integers(0, size - 1), min_size=dim, max_size=dim)
        cells = draw(st.lists(cell, max_size=12, unique_by=tuple))
        c["cells"] = cells
        c["phases"] = draw(st.lists(st.integers(0, 2), min_size=len(cells), max_size=len(cells)))
        c["image"] = draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, -1]), min_size=dim, max_size=dim))
        c["as_list"] = draw(st.booleans())
    return c


def cells_of(structure):
    from pylattica.core.constants import LOCATION, SITE_ID

    d = {}
    for s in structure.sites():
        loc = tuple(int(round(float(x))) for x in s[LOCATION])
        assert loc not in d
        d[loc] = s[SITE_ID]
    return d


def reordered(S, seed):
    """The same grid, its sites added in another order."""
    import random

    from pylattica.core import PeriodicStructure

    if seed is None:
        return S
    T = PeriodicStructure(S.lattice)
    sites = list(S.sites())
    random.Random(seed).shuffle(sites)
    for s in sites:
        T.add_site(s["_site_class"], tuple(float(x) for x in s["_location"]))
    return T


def inside(cell, center, radius):
    d = sum((Fraction(x) - Fraction(c)) ** 2 for x, c in zip(cell, center))
    return radius > 0 and d < Fraction(radius) ** 2


def check(case):
    from pylattica.core import Simulation, SimulationState
    from pylattica.core.constants import SITE_ID
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.structures.square_grid import (DiscreteGridSetup, SimpleSquare2DStructureBuilder,
                                                  SimpleSquare3DStructureBuilder)

    dim, size, kind = case["dim"], case["size"], case["kind"]
    phases = PhaseSet(["A", "B", "C", "bg"])
    kw = {} if dim == 2 and case["default_dim"] else {"dim": dim}
    setup = DiscreteGridSetup(phases, **kw)
    if kind == "solid":
        S = setup.build_structure(size)
        state = setup.setup_solid_phase(S, "A")
        rule = lambda p: "A"
    elif kind == "interface":
        sim = setup.setup_interface(size, "A", "B")
        rule = lambda p: "A" if p[0] < size // 2 else "B"
    elif kind == "particle":
        sim = setup.setup_particle(size, case["radius"], "bg", "A")
        mid = [Fraction(size, 2)] * dim
        rule = lambda p: "A" if inside(p, mid, case["radius"]) else "bg"
    elif kind == "coords":
        d, by = {}, {}
        listed = list(zip(case["cells"], case["phases"]))
        if case["all"]:
            pat = [2, 1, *case["phases"]]
            listed = [(p, pat[k % len(pat)]) for k, p in enumerate(itertools.product(range(size), repeat=dim))]
        for cell, ph in listed:
            name = ["A", "B", "C"][ph]
            loc = [x + size * s for x, s in zip(cell, case["image"])]
            d.setdefault(name, []).append(loc if case["as_list"] else tuple(loc))
            by[tuple(cell)] = name
        given_d = copy.deepcopy(d)
        sim = setup.setup_coords(size, "bg", d)
        assert d == given_d
        rule = lambda p: by.get(p, "bg")
    else:
        build = (SimpleSquare2DStructureBuilder if dim == 2 else SimpleSquare3DStructureBuilder)().build
        shape = case.get("shape")
        if case.get("before"):
            T = build(tuple(shape[::-1])) if shape else setup.build_structure(size + 1)
            setup.add_particle_to_state(T, setup.setup_solid_phase(T, "bg"), tuple(case["center"]), case["radius"], "A")
        S = build(tuple(shape)) if shape else setup.build_structure(size)
        state = SimulationState()
        at = cells_of(S)
        for k, (p, i) in enumerate(sorted(at.items())):
            if k % case["every"] == 0:
                state.set_site_state(i, {OCC: "bg", "grain": case["old"][k % len(case["old"])]})
        state.set_general_state({"t": 3})
        out = setup.add_particle_to_state(S, state, tuple(case["center"]), case["radius"], "A")
        balls = [(case["center"], "A")]
        if case["second"]:
            c2 = [size - 1 - x for x in case["center"]]
            out = setup.add_particle_to_state(S, out, tuple(c2), case["radius"], "B")
            balls.append((c2, "B"))

        def rule(p, name="bg"):
            for c, ph in balls:
                if inside(p, c, case["radius"]):
                    name = ph
            return name

        for k, (p, i) in enumerate(sorted(at.items())):
            if k % case["every"]:  # had no state, and has one only inside a particle
                want = {SITE_ID: i, OCC: rule(p, None)} if rule(p, None) else None
                assert out.get_site_state(i) == want, ("cell", p, out.get_site_state(i), want)
                continue
            got = dict(out.get_site_state(i))
            assert got.pop(OCC) == rule(p), ("cell", p, "expected", rule(p), balls, case["radius"])
            assert got.pop(SITE_ID) == i and got == {"grain": case["old"][k % len(case["old"])]}, ("cell", p, got)
        assert out.get_general_state() == {"t": 3}, out.get_general_state()
        assert sorted(out.site_ids()) == sorted(i for k, (p, i) in enumerate(sorted(at.items()))
                                                if k % case["every"] == 0 or rule(p, None))
        occ = {out.get_site_state(i)[OCC] for i in out.site_ids()}
        return len(occ) > 1, [kind, "dim%d" % dim]
    if kind != "solid":
        assert isinstance(sim, Simulation)
        S, state = sim.structure, sim.state
    at = cells_of(S)
    assert len(at) == size ** dim and all(0 <= x < size for p in at for x in p) and len(S.site_ids) == size ** dim
    assert sorted(state.site_ids()) == sorted(at.values())
    seen = set()
    for p, i in at.items():
        got = state.get_site_state(i)[OCC]
        want = rule(p)
        seen.add(want)
        assert got == want, ("cell", p, "is", got, "expected", want)
    return len(seen) > 1 or kind == "solid" and size > 1, [kind, "dim%d" % dim]


SUBS = [Sub("setups", strat, check, quick=900, shards=6)]
