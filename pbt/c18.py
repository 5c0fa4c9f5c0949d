"""C18: growth."""
from fractions import Fraction

from hypothesis import strategies as st

from . import rules
from .c16 import build_grid
from .harness import Sub
from .structs import nb_set

RULE = ("steps: case = 2D or 3D grid x neighbourhood x phases on the cells x background name, every transition "
        "judged; non-trivial = some background site has neighbours of two phases. grow: case = GrowthSetup "
        "arguments x seed; non-trivial = at least two phases seeded")
ASSUMPTIONS = ["ties between equally frequent phases may go either way",
               "grow: feasible seed counts, at least one seed, neighbourhoods that contain the next cell along every axis"]
PH = ["P%d" % k for k in range(8)]


@st.composite
def strat(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    hi = {2: draw(st.sampled_from([6, 6, 6, 11, 18])), 3: 4}[dim]
    size = draw(st.one_of(st.integers(1, hi), st.lists(st.integers(1, hi), min_size=dim, max_size=dim)))
    mode = draw(st.sampled_from(["dense", "sparse", "mixed", "crowded"]))
    w = {"dense": [0] * 2 + [1, 1, 1, 2, 2, 3, 4], "sparse": [0] * 12 + [1, 2, 3], "mixed": [0] * 5 + [1, 2, 3, 1, 2],
         "crowded": [0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 8]}[mode]
    cells = draw(st.lists(st.sampled_from(w), min_size=64, max_size=64))
    return {"order": draw(st.sampled_from([None, None, None, 1, 2, 3])), "dim": dim, "size": size, "cells": cells, "steps": draw(st.integers(1, 4)),
            "nb": draw(st.sampled_from(["default", "moore1", "moore2", "vn", "dist", "hex", "drawn"])),
            "unnamed": draw(st.integers(0, 4)) == 0, "seed": draw(st.integers(0, 10**6)),
            "shift": draw(st.sampled_from([0, 0, 0, 5, 9, 17, 26])),
            "bg": draw(st.sampled_from([None, "bg", "zz"])), "vacant": draw(st.integers(0, 3)) == 0, "extra": draw(st.booleans())}


def check(case):
    from pylattica.core import DistanceNeighborhoodBuilder, SimulationState, SynchronousRunner
    from pylattica.core.neighborhood_builders import StochasticNeighborhoodBuilder
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.discrete.state_constants import VACANT
    from pylattica.models.growth import GrowthController
    from pylattica.structures.square_grid import neighborhoods as N

    S, at, _ = build_grid(case)
    dim = case["dim"]
    vn = N.VonNeumannNbHood2DBuilder if dim == 2 else N.VonNeumannNbHood3DBuilder
    builder = {"default": lambda: None, "moore1": lambda: N.MooreNbHoodBuilder(1, dim),
               "moore2": lambda: N.MooreNbHoodBuilder(2, dim), "vn": lambda: vn(1),
               "dist": lambda: DistanceNeighborhoodBuilder(1.3),
               "hex": N.PseudoHexagonalNeighborhoodBuilder2D if dim == 2 else N.PseudoHexagonalNeighborhoodBuilder3D,
               "drawn": lambda: StochasticNeighborhoodBuilder([N.MooreNbHoodBuilder(1, dim), DistanceNeighborhoodBuilder(1.2)])
               }[case["nb"]]()
    rules.seeded(case.get("seed", 0))
    ref = (builder or N.MooreNbHoodBuilder(1, dim)).get(S)
    # what a query of the site may answer: one list, or for a drawn neighbourhood several
    asks = 90 if case["nb"] in ("hex", "drawn") else 1
    nbs = {i: {frozenset(nb_set(ref, i)) for _ in range(asks)} for i in S.site_ids}
    bg = case["bg"] or VACANT
    # the phases that occur are some of those in the phase set
    names = [bg] + (["P%d" % (k + case["shift"]) for k in range(8)])
    if case["bg"] and case.get("vacant"):  # elsewhere the background's name, here a phase like any other
        names[1] = VACANT
    if case.get("unnamed"):  # a phase whose name counts as false
        names[2] = ""
    known = [bg] + names[1:2] * (names[1] == VACANT) + (["P%d" % k for k in range(34)] if case["shift"] else PH)
    if case.get("unnamed"):
        known.append("")
    s0 = SimulationState()
    for (p, i), c in zip(sorted(at.items()), case["cells"] * 6):
        d = {OCC: names[c]}
        if case["extra"]:
            d["grain"] = c
        s0.set_site_state(i, d)
    kw = {}
    if case["bg"]:
        kw["background_phase"] = bg
    if builder is not None:
        kw["nb_builder"] = builder
    ctl = GrowthController(PhaseSet(known), S, **kw)
    res = SynchronousRunner().run(s0, ctl, case["steps"])
    asked = 0
    contested, crowd = False, 0
    for k in range(case["steps"]):
        a, b = res.get_step(k), res.get_step(k + 1)
        assert sorted(b.site_ids()) == sorted(at.values())
        for i in at.values():
            pa, pb = a.get_site_state(i)[OCC], b.get_site_state(i)[OCC]
            rest_a = {x: y for x, y in a.get_site_state(i).items() if x != OCC}
            rest_b = {x: y for x, y in b.get_site_state(i).items() if x != OCC}
            assert rest_a == rest_b, ("step", k, "site", i, rest_a, rest_b)
            if pa != bg:
                assert pb == pa, ("step", k, "occupied site", i, pa, "became", pb)
                continue
            bests = []
            for drawn in nbs[i]:
                cnt = {}
                for j in drawn:
                    q = a.get_site_state(j)[OCC]
                    if q != bg:
                        cnt[q] = cnt.get(q, 0) + 1
                contested = contested or len(cnt) > 1
                crowd = max(crowd, len(cnt))
                bests.append({q for q, n in cnt.items() if n == max(cnt.values())} or {bg})
            assert any(pb in best for best in bests), ("step", k, "site", i, "became", pb, "instead of one of", bests)
            if asked < 6 and len(bests) > 1 and not set.intersection(*bests):
                # the neighbourhood is drawn anew whenever the rule is applied
                asked += 1
                seen = {ctl.get_state_update(i, a).get(OCC, bg) for _ in range(90)}
                assert all(seen & best for best in bests), ("site", i, "only ever becomes", seen, "of", bests)
    return contested, [case["nb"], "dim%d" % dim] + (["five_phases_around_a_site"] if crowd > 4 else [])


GROW_NB = {2: ["moore1", "vn1", "vn2", "moore1", "vn1", "hex", "moore2", "oneway", "circular"],
           3: ["vn1", "moore1", "vn1", "hex", "vn2", "oneway"]}


@st.composite
def strat_grow(draw):
    dim = draw(st.sampled_from([2, 2, 2, 3]))
    size = draw(st.sampled_from({2: [6, 8, 12, 7, 9, 2, 3, 4, 5, 12, 19], 3: [4, 5, 2, 3, 6]}[dim]))
    buffer = draw(st.sampled_from([0, None, 1, 1, 2, "default"]))
    b = 2 if buffer == "default" else (buffer or 0)
    cap = max(1, size ** dim // (2 * b + 1) ** dim // 2)
    n = min(cap, draw(st.sampled_from([12, 2, 3, 4, 5, 6, 8, 10, 12, 1])))
    names = ["P%d" % k for k in range(draw(st.sampled_from([2, 1, 2, 3, 4, 4, 9])))]
    amts = {p: draw(st.sampled_from([1, 1, 2, 3, 0.5, 0.25, 10])) for p in names}
    return {"dim": dim, "size": size, "num": n, "buffer": buffer, "amts": amts,
            "bg": draw(st.sampled_from(["bg", "VACANT"])),
            "nb": draw(st.sampled_from(GROW_NB[dim])), "seed": draw(st.integers(0, 10**6))}


def grow_builder(kind, dim):
    from pylattica.core import DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder
    from pylattica.structures.square_grid import neighborhoods as N

    flat = dim == 2
    if kind[:-1] == "moore":
        return N.MooreNbHoodBuilder(int(kind[-1]), dim)
    if kind[:-1] == "vn":
        return (N.VonNeumannNbHood2DBuilder if flat else N.VonNeumannNbHood3DBuilder)(int(kind[-1]))
    if kind == "hex":
        return N.PseudoHexagonalNeighborhoodBuilder2D() if flat else N.PseudoHexagonalNeighborhoodBuilder3D()
    if kind == "oneway":  # phases grow towards the lower end of each axis only
        return MotifNeighborhoodBuilder([tuple(int(i == ax) for i in range(dim)) for ax in range(dim)])
    return DistanceNeighborhoodBuilder(1.2)


def check_grow(case):
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.structures.square_grid import GrowthSetup

    rules.seeded(case["seed"])
    dim = case["dim"]
    nb = grow_builder(case["nb"], dim)
    kw = {} if case["buffer"] == "default" else {"buffer": case["buffer"]}
    sim = GrowthSetup(PhaseSet([case["bg"]] + sorted(case["amts"])), **({} if dim == 2 else {"dim": dim})).grow(
        case["size"], case["num"], case["bg"], dict(case["amts"]), nb, **kw)
    ids = list(sim.structure.site_ids)
    assert len(ids) == case["size"] ** dim and sorted(sim.state.site_ids()) == sorted(ids)
    occ = [sim.state.get_site_state(i)[OCC] for i in ids]
    assert case["bg"] not in occ, ("background remains", occ.count(case["bg"]))
    assert set(occ) <= set(case["amts"]), set(occ) - set(case["amts"])
    total = sum(Fraction(a) for a in case["amts"].values())
    for p, a in case["amts"].items():
        if Fraction(a) * case["num"] / total >= 1:
            assert p in occ, ("a phase that was allotted a seed is missing", p, case["amts"], case["num"])
    return len(set(occ)) > 1, [case["nb"], "dim%d" % dim, "phases_%d" % len(set(occ))]


SUBS = [Sub("steps", strat, check, quick=400, shards=4),
        Sub("grow", strat_grow, check_grow, quick=60, thorough=1200, shards=2, per_case_procs=3)]
