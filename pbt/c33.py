"""C33: reloaded and copied structures behave as the original."""
import copy
import json
import os
import pickle
import tempfile

from hypothesis import strategies as st

from . import rules
from . import structs as T
from .harness import Sub

RULE = ("case = structure (tiled lattice with classes, built-in grid, honeycomb) x way of duplicating it (dictionary, JSON, "
        "JSON with other key order, simulation file, deepcopy, pickle; up to three in a row); every neighbourhood builder, "
        "the class queries, particle placement, built-in automata and images are evaluated on both; non-trivial = some "
        "pair of sites is a neighbour and some pair is not")
ASSUMPTIONS = ["coordinates are multiples of 0.001", "cutoffs keep 0.002 away from the distances that occur"]

WAYS = ["dict", "json", "reorder", "simulation", "deepcopy", "pickle"]


@st.composite
def strat_tiled(draw):
    c = draw(T.struct_case(exact=True))
    c["ways"] = draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3))
    c["cut"] = draw(st.integers(0, 12))
    c["inner"] = draw(st.integers(0, 6))
    c["offs"] = draw(st.lists(st.lists(st.integers(0, 40), min_size=2, max_size=2), min_size=1, max_size=4))
    c["only"] = draw(st.sampled_from([None, None, *T.CLASSES]))
    c["named"] = draw(st.sampled_from([0, 0, 0, 1, 2]))  # classes that are numbers or tuples
    c["more"] = draw(st.booleans())
    c["seed"] = draw(st.integers(0, 10**6))
    return c


def duplicate(S, ways):
    from pylattica.core import PeriodicStructure, Simulation, SimulationState

    for w in ways:
        if w == "dict":
            S = PeriodicStructure.from_dict(S.as_dict())
        elif w == "json":
            S = PeriodicStructure.from_dict(json.loads(json.dumps(S.as_dict())))
        elif w == "reorder":
            d = json.loads(json.dumps(S.as_dict(), sort_keys=True))
            d["_sites"] = dict(reversed(list(d["_sites"].items())))
            S = PeriodicStructure.from_dict(d)
        elif w == "deepcopy":
            S = copy.deepcopy(S)
        elif w == "pickle":
            S = pickle.loads(pickle.dumps(S))
        else:
            d = tempfile.mkdtemp(prefix="pbt-reload-")
            p = os.path.join(d, "s.json")
            try:
                Simulation(SimulationState.from_struct(S), S).to_file(p)
                S = Simulation.from_file(p).structure
            finally:
                if os.path.exists(p):
                    os.remove(p)
                os.rmdir(d)
    return S


def lists(nb, ids, seed=None):
    """Neighbours of every site; with a seed those of a stochastic neighbourhood."""
    if seed is not None:
        rules.seeded(seed)
    return {i: sorted((int(j), round(float(w), 2)) for j, w in nb.neighbors_of(i, include_weights=True)) for i in ids}


def same_lists(a, b, what):
    assert a.keys() == b.keys()
    for i in a:
        assert [j for j, _ in a[i]] == [j for j, _ in b[i]], (what, "neighbours of", i, a[i], b[i])
        for (_, x), (_, y) in zip(a[i], b[i]):
            assert abs(x - y) <= 0.0101, (what, "weights of", i, a[i], b[i])


def names(case):
    """The classes, as text, numbers or (where nothing is written to JSON) tuples."""
    kind = case.get("named", 0)
    if kind == 2 and not {"dict", "deepcopy", "pickle"}.issuperset(case["ways"]):
        kind = 1
    new = {c: [c, k, (c, k)][kind] for k, c in enumerate(T.CLASSES)}
    return list(new.values()), dict(case, classes=[new[c] for c in case["classes"]],
                                    only=None if case["only"] is None else new[case["only"]])


def check_tiled(case):
    from pylattica.core import StateAnalyzer, SimulationState
    from pylattica.core.neighborhood_builders import (AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder,
                                                      MotifNeighborhoodBuilder, SiteClassNeighborhoodBuilder,
                                                      StochasticNeighborhoodBuilder)

    classes, case = names(case)
    S, model, vecs, per = T.build(case, exact=True)
    ids = [e[0] for e in model]
    if not ids:
        return False, []
    C = duplicate(S, case["ways"])
    assert sorted(C.site_ids) == sorted(S.site_ids) == sorted(ids)
    from . import gens as G

    D = G.pair_min_images([[float(x) for x in S.site_location(i)] for i in ids], vecs, per)
    ds = sorted({round(float(d), 2) for row in D for d in row if d > 0.01})

    def between(k):
        """A radius clear of every distance that occurs."""
        if not ds:
            return 1.0
        x = ds[k % len(ds)] + 0.02
        while any(abs(x - d) < 0.012 for d in ds):
            x += 0.01
        return x

    cut, inner = between(case["cut"]), between(case["inner"])
    if inner > cut:
        inner, cut = cut, inner
    loc = {i: [float(x) for x in S.site_location(i)] for i in ids}
    offs = []
    for a, b in case["offs"]:
        p, q = loc[ids[a % len(ids)]], loc[ids[b % len(ids)]]
        v = tuple(round(y - x, 3) for x, y in zip(p, q))
        if v not in offs:
            offs.append(v)
    dist = DistanceNeighborhoodBuilder(cut)
    builders = {"distance": dist, "annular": AnnularNeighborhoodBuilder(inner, cut), "motif": MotifNeighborhoodBuilder(offs),
                "classes": SiteClassNeighborhoodBuilder({c: b for c, b in zip(classes, [dist, MotifNeighborhoodBuilder(offs)])}),
                "stochastic": StochasticNeighborhoodBuilder([dist, MotifNeighborhoodBuilder(offs)])}
    kw = {} if case["only"] is None else {"site_class": case["only"]}
    got = {}
    for name, b in builders.items():
        seed = case["seed"] if name == "stochastic" else None
        got[name] = lists(b.get(S, **kw), ids, seed)
        same_lists(got[name], lists(b.get(C, **kw), ids, seed), name)
    state = SimulationState.from_struct(S)
    for i in ids:
        state.set_site_state(i, {"v": i % 3})
    assert sorted(SimulationState.from_struct(C).site_ids()) == sorted(ids)
    for cls in [None, *classes]:
        for crit in (None, [lambda s: s["v"] == 1]):
            a, b = (sorted(StateAnalyzer(x).get_sites(state, site_class=cls, state_criteria=crit)) for x in (S, C))
            assert a == b, ("class", cls, a, b)
        assert sorted(s["_site_id"] for s in S.sites(cls)) == sorted(s["_site_id"] for s in C.sites(cls))
    assert sorted(S.all_site_classes()) == sorted(C.all_site_classes())
    if case["more"]:  # both grow alike, and independently of each other
        m = G.mat(T.big_lat(case))
        for f in (0.431, 0.377, 0.293):
            p = tuple(round(f * float(sum(m[r][c] for r in range(len(m)))), 3) for c in range(len(m)))
            if any(G.min_image(p, q, vecs, per) < 0.02 for q in loc.values()):
                continue
            assert S.id_at(p) is None and C.id_at(p) is None
            before_s = list(S.site_ids)
            n = C.add_site("new", p)
            assert S.id_at(p) is None, "a site added to the copy is in the original"
            assert list(S.site_ids) == before_s and [s["_site_id"] for s in S.sites()] == before_s
            assert S.add_site("new", p) == n
            for X in (S, C):
                assert sorted(X.site_ids) == sorted(ids + [n]) == sorted(s["_site_id"] for s in X.sites())
            assert C.id_at(p) == S.id_at(p) == n
            same_lists(lists(dist.get(S), ids + [n]), lists(dist.get(C), ids + [n]), "after growing")
            break
    near = got["distance"]
    some = any(near[i] for i in ids)
    notall = any(len(near[i]) < len(ids) - 1 for i in ids)
    return some and notall, sorted(set(case["ways"]))


@st.composite
def strat_grid(draw):
    kind = draw(st.sampled_from(["square", "square", "cubic", "honeycomb"]))
    dim = 3 if kind == "cubic" else 2
    lo, hi = (3, 4) if dim == 3 else (3, 7)
    size = draw(st.one_of(st.integers(lo, hi), st.lists(st.integers(lo, hi), min_size=dim, max_size=dim)))
    return {"kind": kind, "size": size, "ways": draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3)),
            "seed": draw(st.integers(0, 10**6)), "steps": draw(st.integers(1, 5)),
            "cells": draw(st.lists(st.sampled_from(["alive", "dead"]), min_size=5, max_size=12)),
            "variant": draw(st.sampled_from(["B3/S23", "B36/S23", "B2/S"])),
            "radius": draw(st.sampled_from([1.1, 1.6, 2.3]))}


def check_grid(case):
    from pylattica.core import SimulationState, SynchronousRunner
    from pylattica.discrete import PhaseSet
    from pylattica.models.game_of_life import GameOfLifeController
    from pylattica.models.growth import GrowthController
    from pylattica.structures.honeycomb import HoneycombNeighborhoodBuilder, HoneycombTilingBuilder
    from pylattica.structures.square_grid import (DiscreteGridSetup, SimpleSquare2DStructureBuilder,
                                                  SimpleSquare3DStructureBuilder)
    from pylattica.structures.square_grid import neighborhoods as N
    from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D

    kind = case["kind"]
    dim = 3 if kind == "cubic" else 2
    size = case["size"] if isinstance(case["size"], int) else tuple(case["size"])
    S = {"square": SimpleSquare2DStructureBuilder, "cubic": SimpleSquare3DStructureBuilder,
         "honeycomb": HoneycombTilingBuilder}[kind]().build(size)
    C = duplicate(S, case["ways"])
    ids = sorted(S.site_ids)
    assert sorted(C.site_ids) == ids
    if kind == "honeycomb":
        builders = {"honeycomb": HoneycombNeighborhoodBuilder()}
    else:
        builders = {"moore": N.MooreNbHoodBuilder(1, dim=dim),
                    "von neumann": N.VonNeumannNbHood2DBuilder(1) if dim == 2 else N.VonNeumannNbHood3DBuilder(1),
                    "circular": N.CircularNeighborhoodBuilder(case["radius"]),
                    "hex": (N.PseudoHexagonalNeighborhoodBuilder2D if dim == 2 else
                            N.PseudoHexagonalNeighborhoodBuilder3D)()}
        if dim == 2:
            builders["pent"] = N.PseudoPentagonalNeighborhoodBuilder()
    for name, b in builders.items():
        seed = case["seed"] if name in ("hex", "pent") else None
        same_lists(lists(b.get(S), ids, seed), lists(b.get(C), ids, seed), name)
    for b in builders.values():
        s0 = SimulationState()
        for k, i in enumerate(ids):
            s0.set_site_state(i, {"DISCRETE_OCCUPANCY": case["cells"][(k * k + k // 3) % len(case["cells"])]})
        break
    names = {"alive": "P", "dead": "bg"}
    g0 = SimulationState()
    for i in ids:
        g0.set_site_state(i, {"DISCRETE_OCCUPANCY": names[s0.get_site_state(i)["DISCRETE_OCCUPANCY"]] if i % 5 == 0 else "bg"})
    nb = list(builders.values())[0]
    out = []
    for X in (S, C):
        runs = [SynchronousRunner().run(g0, GrowthController(PhaseSet(["P", "bg"]), X, nb_builder=nb, background_phase="bg"),
                                        case["steps"])]
        if kind == "square":
            runs.append(SynchronousRunner().run(s0, GameOfLifeController(X, case["variant"]), case["steps"]))
        out.append([[st_.as_dict()["state"] for st_ in r.steps()] for r in runs])
        if kind != "honeycomb":
            t = DiscreteGridSetup(PhaseSet(["alive", "dead", "x"]), dim=dim).add_particle_to_state(
                X, s0.copy(), (1,) * dim, case["radius"], "x")
            out[-1].append(t.as_dict()["state"])
        if kind == "square":
            art = SquareGridArtist2D(X, DiscreteCellArtist.from_phase_list(["alive", "dead"]))
            im = art.get_img(s0, cell_size=3)
            out[-1].append([im.size, im.tobytes()])
    for a, b in zip(*out):
        assert a == b, "the simulations differ"
    return True, [kind] + sorted(set(case["ways"]))


SUBS = [Sub("tiled", strat_tiled, check_tiled, quick=300, shards=4),
        Sub("grids", strat_grid, check_grid, quick=100)]
