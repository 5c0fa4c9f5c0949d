"""C37: numbering, origin, axes and choice of lattice vectors do not matter."""
import itertools
import random

import numpy as np
from hypothesis import strategies as st

from . import gens as G
from . import rules
from .c19 import reordered
from . import structs as T
from .harness import Sub

RULE = ("case = structure x a change of description (sites added in another order, everything shifted, axes exchanged or "
        "reversed, lattice vectors listed in another order, other lattice vectors for the same lattice), or a pattern on a "
        "grid x a shift, turn or reflection; both descriptions must answer alike; non-trivial = some pair of sites is a "
        "neighbour and some pair is not, or the pattern changes")
ASSUMPTIONS = ["coordinates are multiples of 0.001", "cutoffs keep 0.002 away from the distances that occur",
               "growing patterns have one phase (majority ties are free)"]


@st.composite
def strat_structs(draw):
    c = draw(T.struct_case(exact=True))
    dim = len(c["num"])
    c["order"] = draw(st.one_of(st.none(), st.integers(0, 10**6)))
    c["shift"] = draw(st.one_of(st.none(), st.lists(st.one_of(st.sampled_from([0.5, 0.001, -0.25, 1.0, -7.0, 0.125]),
                                                               st.integers(-9000, 9000).map(lambda k: k / 1000)),
                                                     min_size=dim, max_size=dim)))
    c["axes"] = draw(st.one_of(st.none(), st.permutations(range(dim)).map(list)))
    c["signs"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([1, -1]), min_size=dim, max_size=dim)))
    c["rows"] = draw(st.one_of(st.none(), st.permutations(range(dim)).map(list)))
    c["shear"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, dim - 1), st.integers(0, dim - 1),
                                                     st.sampled_from([1, -1])).map(list)))
    c["cut"], c["inner"] = draw(st.integers(0, 12)), draw(st.integers(0, 6))
    c["offs"] = draw(st.lists(st.lists(st.integers(0, 40), min_size=2, max_size=2), min_size=1, max_size=5))
    c["only"] = draw(st.sampled_from([None, None, *T.CLASSES]))
    c["steps"] = draw(st.integers(1, 3))
    c["points"] = draw(st.lists(st.lists(st.integers(-5000, 5000).map(lambda k: k / 1000), min_size=dim, max_size=dim), max_size=3))
    return c


def lists(nb, ids):
    return {i: {int(j): float(w) for j, w in nb.neighbors_of(i, include_weights=True)} for i in ids}


def totals(nb, m, count):
    """A rule that adds up the values of the neighbours."""
    from pylattica.core import BasicController

    class Totals(BasicController):
        def get_state_update(self, site_id, prev_state):
            v = prev_state.get_site_state(site_id)["v"]
            return {"v": (2 * v + 1 + sum(prev_state.get_site_state(j)["v"] for j in nb.neighbors_of(site_id))) % m,
                    "n": prev_state.get_site_state(site_id).get("n", 0) + count}

    return Totals()


def check_structs(case):
    from pylattica.core import Lattice, PeriodicStructure, SimulationState, StateAnalyzer, SynchronousRunner
    from pylattica.core import neighborhood_builders as B

    S, model, vecs, per = T.build(case, exact=True)
    if not model:
        return False, []
    dim = len(per)
    ids = [e[0] for e in model]

    # the other description
    axes, signs = case["axes"] or list(range(dim)), case["signs"] or [1] * dim
    shift = case["shift"] or [0.0] * dim

    def turn(v):
        return [round(float(signs[k] * v[axes[k]]), 3) for k in range(dim)]

    def move(p):
        return tuple(round(a + b, 3) for a, b in zip(turn(p), shift))

    vecs2, per2 = [turn(v) for v in vecs], list(per)
    labels = [k for k in ("order", "shift", "axes", "signs", "rows") if case[k] is not None]
    if case["shear"]:
        i, j, k = case["shear"]
        new = [list(v) for v in vecs2]
        if i != j and per2[j]:
            new[i] = [round(x + k * y, 3) for x, y in zip(new[i], new[j])]
            if G.images(new) <= 3000 and min(G.heights(new)) > 0.4:
                vecs2 = new
                labels.append("shear")
    rows = case["rows"] or list(range(dim))
    vecs2, per2 = [vecs2[r] for r in rows], [per2[r] for r in rows]
    order = list(range(len(model)))
    if case["order"] is not None:
        random.Random(case["order"]).shuffle(order)
    S2 = PeriodicStructure(Lattice([tuple(v) for v in vecs2], tuple(per2)))
    pi = {}
    for k in order:
        i, c, loc = model[k]
        pi[i] = S2.add_site(c, move(loc))

    # both answer alike
    locs = [[float(x) for x in e[2]] for e in model]
    for (i, c, loc) in model:
        assert S2.id_at(move(loc)) == pi[i] and S.id_at(tuple(loc)) == i and S2.site_class(pi[i]) == c == S.site_class(i)
    for p in case["points"]:
        a, b = S.id_at(tuple(p)), S2.id_at(move(p))
        assert (a is None) == (b is None) and (a is None or pi[a] == b), ("site at", p, a, b)
    for c in [None, *T.CLASSES]:
        assert sorted(pi[s["_site_id"]] for s in S.sites(c)) == sorted(s["_site_id"] for s in S2.sites(c)), ("class", c)
    D = G.pair_min_images(locs, vecs, per)
    far = [[round(float(x + c * v), 3) for x, v in zip(locs[0], vecs[c % dim])] for c in (2, -3)
           if per[c % dim]] if len(locs) < 30 else []  # the first site, cells away
    for a, b in list(itertools.combinations(case["points"] + far + locs, 2))[:50]:
        x = float(S.lattice.cartesian_periodic_distance(np.array(a), np.array(b)))
        y = float(S2.lattice.cartesian_periodic_distance(np.array(move(b)), np.array(move(a))))
        assert abs(x - y) < 0.00101, ("distance", a, b, x, y)
    ds = sorted({round(float(d), 2) for row in D for d in row if d > 0.01})

    def between(k):
        """A radius clear of every distance that occurs."""
        x = ds[k % len(ds)] + 0.02 if ds else 1.0
        while any(abs(x - d) < 0.012 for d in ds):
            x += 0.01
        return x

    inner, cut = sorted([between(case["inner"]), between(case["cut"])])
    offs = []
    for a, b in case["offs"]:
        v = tuple(round(y - x, 3) for x, y in zip(locs[a % len(ids)], locs[b % len(ids)]))
        if v not in offs:
            offs.append(v)
    offs2 = [tuple(turn(v)) for v in offs]
    names = sorted({c for _, c, _ in model})
    mk = {"distance": lambda o: B.DistanceNeighborhoodBuilder(cut), "annular": lambda o: B.AnnularNeighborhoodBuilder(inner, cut),
          "motif": lambda o: B.MotifNeighborhoodBuilder(o)}
    kw = {} if case["only"] is None else {"site_class": case["only"]}
    pairs = {}
    for name, f in list(mk.items()) + [("classes", lambda o: B.SiteClassNeighborhoodBuilder(
            {c: [mk["motif"](o), mk["distance"](o)][k % 2] for k, c in enumerate(names)}))]:
        nb, nb2 = f(offs).get(S, **kw), f(offs2).get(S2, **kw)
        pairs[name] = f(offs).get(S), f(offs2).get(S2)
        a, b = lists(nb, ids), lists(nb2, [pi[i] for i in ids])
        for i in ids:
            want = {pi[j]: w for j, w in a[i].items()}
            got = b[pi[i]]
            assert want.keys() == got.keys(), (name, "neighbours of", i, sorted(want), sorted(got))
            if name != "motif" and name != "classes":  # two offsets may lead to one site
                for j in want:
                    assert abs(want[j] - got[j]) < 0.0101, (name, "weights of", i, want, got)
    # and so do automata
    s, s2 = SimulationState(), SimulationState()
    for k, i in enumerate(ids):
        s.set_site_state(i, {"v": (k * k + k // 2) % 5})
    for i2, i in sorted((pi[i], i) for i in ids):
        s2.set_site_state(i2, {"v": s.get_site_state(i)["v"]})
    for name in ("distance", "motif"):
        nb, nb2 = pairs[name]
        r = SynchronousRunner().run(s, totals(nb, 7, 1), case["steps"])
        r2 = SynchronousRunner().run(s2, totals(nb2, 7, 1), case["steps"])
        for k in range(case["steps"] + 1):
            x, y = r.get_step(k), r2.get_step(k)
            for i in ids:
                u, w = x.get_site_state(i), y.get_site_state(pi[i])
                assert {**u, "_site_id": 0} == {**w, "_site_id": 0}, (name, "step", k, "site", i, u, w)
            for v in range(7):
                assert sorted(pi[i] for i in StateAnalyzer(S).get_sites_where_equal(x, {"v": v}, site_class=case["only"])) == \
                    sorted(StateAnalyzer(S2).get_sites_where_equal(y, {"v": v}, site_class=case["only"]))
    near = pairs["distance"][0]
    deg = [len(near.neighbors_of(i)) for i in ids]
    return bool(labels) and any(deg) and min(deg) < len(ids) - 1, labels


# ------------------------------------------------------------------ patterns on grids

@st.composite
def strat_grids(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    size = draw(st.lists(st.integers(3, 8 if dim == 2 else 4), min_size=dim, max_size=dim))
    return {"size": size, "order": draw(st.one_of(st.none(), st.integers(0, 99))), "cells": draw(st.lists(st.integers(0, 1), min_size=9, max_size=23)),
            "few": draw(st.booleans()), "steps": draw(st.integers(1, 4)),
            "shift": draw(st.lists(st.integers(-9, 9), min_size=dim, max_size=dim)),
            "axes": draw(st.permutations(range(dim)).map(list)), "signs": draw(st.lists(st.sampled_from([1, -1]), min_size=dim, max_size=dim)),
            "variant": draw(st.sampled_from(["B3/S23", "B36/S23", "B2/S", "B1357/S1357", "B3/S12345", "B368/S245"])),
            "nb": draw(st.sampled_from(["moore", "vn", "circle", "default"])), "workers": draw(st.sampled_from([0] * 7 + [3])),
            "cell_size": draw(st.integers(1, 4))}


def check_grids(case):
    from pylattica.core import SimulationState, SynchronousRunner
    from pylattica.discrete import DiscreteStepAnalyzer, PhaseSet
    from pylattica.models.game_of_life import GameOfLifeController
    from pylattica.models.growth import GrowthController
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder
    from pylattica.structures.square_grid import neighborhoods as N
    from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D

    size, axes, signs, shift = case["size"], case["axes"], case["signs"], case["shift"]
    dim = len(size)
    # the first two lattice vectors of the grids point along y and x: sizes are looked up in what is built
    mk = SimpleSquare2DStructureBuilder if dim == 2 else SimpleSquare3DStructureBuilder

    def extent(X):
        return [round(float(x)) for x in np.abs(X.lattice.vecs).sum(axis=0)]

    X = mk().build(tuple(size))
    ext = extent(X)
    want = [ext[axes[k]] for k in range(dim)]
    for s2 in set(itertools.permutations(size)):
        Y = mk().build(tuple(s2))
        if extent(Y) == want:
            Y = reordered(Y, case.get("order"))
            break
    else:
        raise AssertionError("no grid of that extent")

    def turn(p):
        q = [p[axes[k]] for k in range(dim)]
        return tuple((signs[k] * q[k] + shift[k]) % want[k] for k in range(dim))

    points = list(itertools.product(*[range(e) for e in ext]))
    cell = {p: case["cells"][(k + k * k // 5) % len(case["cells"])] for k, p in enumerate(points)}
    if case["few"]:
        cell = {p: c if k % 7 == 0 else 0 for k, (p, c) in enumerate(cell.items())}

    def state(Z, named, at):
        s = SimulationState()
        table = {Z.id_at(at(p)): c for p, c in cell.items()}
        assert None not in table and len(table) == len(points)
        for i in Z.site_ids:
            s.set_site_state(i, {"DISCRETE_OCCUPANCY": named[table[i]]})
        return s

    def builder():
        return {"moore": lambda: N.MooreNbHoodBuilder(1, dim=dim), "default": lambda: None,
                "vn": lambda: (N.VonNeumannNbHood2DBuilder if dim == 2 else N.VonNeumannNbHood3DBuilder)(1),
                "circle": lambda: N.CircularNeighborhoodBuilder(1.5)}[case["nb"]]()

    runner = SynchronousRunner(parallel=True, workers=case["workers"]) if case["workers"] else SynchronousRunner()
    changed = False
    kinds = {"growth": (["bg", "P"], lambda Z: GrowthController(PhaseSet(["bg", "P"]), Z, background_phase="bg", nb_builder=builder()))}
    if dim == 2:
        kinds["life"] = (["dead", "alive"], lambda Z: GameOfLifeController(Z, case["variant"]))
    for kind, (named, ctl) in kinds.items():
        a = runner.run(state(X, named, lambda p: p), ctl(X), case["steps"])
        b = runner.run(state(Y, named, turn), ctl(Y), case["steps"])
        assert len(a) == len(b)
        for k in range(len(a)):
            x, y = a.get_step(k), b.get_step(k)
            for p in points:
                u = x.get_site_state(X.id_at(p))["DISCRETE_OCCUPANCY"]
                w = y.get_site_state(Y.id_at(turn(p)))["DISCRETE_OCCUPANCY"]
                assert u == w, (kind, "step", k, "cell", p, u, turn(p), w)
            for n in named:
                assert DiscreteStepAnalyzer().cell_fraction(x, n) == DiscreteStepAnalyzer().cell_fraction(y, n)
        changed = changed or rules.snapshot(a.first_step) != rules.snapshot(a.last_step)
        if dim == 2:
            cs = case["cell_size"]
            art = DiscreteCellArtist({named[0]: (10, 20, 30), named[1]: (200, 100, 50)})
            im, im2 = (np.array(SquareGridArtist2D(Z, art).get_img(r.last_step, cell_size=cs).convert("RGB")) for Z, r in ((X, a), (Y, b)))
            for p in points:  # the colour in the middle of the cell; y points upwards
                q = turn(p)
                u = im[(ext[1] - 1 - p[1]) * cs + cs // 2, p[0] * cs + cs // 2]
                w = im2[(want[1] - 1 - q[1]) * cs + cs // 2, q[0] * cs + cs // 2]
                assert tuple(u) == tuple(w), ("picture", kind, p, q, u, w)
    moved = axes != sorted(axes) or -1 in signs or any(s % e for s, e in zip(shift, want))
    return moved and changed, [case["nb"], "dim%d" % dim]


SUBS = [Sub("structures", strat_structs, check_structs, quick=400, shards=4),
        Sub("grids", strat_grids, check_grids, quick=150, shards=4)]
