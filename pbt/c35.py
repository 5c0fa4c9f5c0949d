"""C35: the form of coordinates does not matter."""
import numpy as np
from hypothesis import strategies as st

from . import gens as G
from . import structs as T
from .harness import Sub

RULE = ("case = structure, sites, offsets, probes and grid setups, every coordinate of which is given once as a tuple of "
        "floats and once as a generated mixture of tuples, lists, arrays and integers (where integral); both are compared; "
        "non-trivial = at least two sites and at least one probe that finds a site")
ASSUMPTIONS = ["periodicity flags are a boolean, a tuple or a list; sizes are integers or tuples"]
FORMS = ["tuple", "list", "array", "numpy", "int", "intarray", "mixed", "mixedlist"]


def form(v, how):
    v = [float(x) for x in v]
    whole = all(x == int(x) for x in v)
    if how == "list":
        return v
    if how == "array":
        return np.array(v)
    if how == "numpy":
        return tuple(np.float64(x) for x in v)
    if how == "int" and whole:
        return tuple(int(x) for x in v)
    if how == "intarray" and whole:
        return np.array([int(x) for x in v])
    if how == "mixed":
        return tuple(int(x) if x == int(x) else x for x in v)
    if how == "mixedlist":
        return [int(x) if x == int(x) else x for x in v]
    return tuple(v)


def amounts(num, how):
    """The same numbers of cells in another form."""
    if how in ("array", "intarray"):
        return np.array(num)
    return tuple(np.int64(k) for k in num) if how in ("numpy", "int") else tuple(num)


@st.composite
def strat(draw):
    c = draw(T.struct_case(exact=True))
    if draw(st.integers(0, 2)) == 0:  # integral vectors
        dim = len(c["lat"]["vecs"])
        c["lat"]["vecs"] = [[float(2 + (i + k) % 3) if i == k else float((i * 3 + k) % 2) if k < i else 0.0
                             for k in range(dim)] for i in range(dim)]
        c["fracs"] = [[0.0] * dim] + [[0.5] * dim] * (len(c["fracs"]) - 1)
    c["forms"] = draw(st.lists(st.sampled_from(FORMS), min_size=6, max_size=6))
    c["vform"] = draw(st.sampled_from(["tuple", "list", "array", "rows", "int"]))
    c["hand"] = draw(st.booleans())
    c["far"] = draw(st.sampled_from([0, 0, 0, 1000, -70000, 1000000]))  # along open axes
    c["probes"] = draw(st.lists(st.tuples(st.integers(0, 60), st.lists(st.integers(-2, 2), min_size=3, max_size=3)).map(list),
                                min_size=1, max_size=6))
    c["cut"] = draw(st.integers(1, 40)) / 10
    return c


def check(case):
    from pylattica.core import Lattice, PeriodicStructure, Simulation, SimulationState
    from pylattica.core.distance_map import EuclideanDistanceMap, ManhattanDistanceMap
    from pylattica.core.neighborhood_builders import DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder

    lat = case["lat"]
    per = G.flags(lat)
    dim = len(per)
    m = G.mat(lat)
    fs = case["forms"]
    turn = iter(range(10**9))

    def other(v):
        return form(v, fs[next(turn) % len(fs)])

    def plain(v):
        return tuple(float(x) for x in v)

    def lattice(mixed):
        if not mixed:
            return Lattice([plain(v) for v in lat["vecs"]], tuple(per))
        vf = case["vform"]
        vecs = {"tuple": lambda: tuple(tuple(v) for v in lat["vecs"]), "list": lambda: [list(v) for v in lat["vecs"]],
                "array": lambda: np.array(lat["vecs"]), "rows": lambda: [np.array(v) for v in lat["vecs"]],
                "int": lambda: [form(v, "int") for v in lat["vecs"]]}[vf]()
        return Lattice(vecs, list(per))

    A, B = lattice(False), lattice(True)
    kept = G.spread_sites(case["fracs"], lat["vecs"], [True] * dim)
    motif = {}
    for k in kept:
        motif.setdefault(case["classes"][k], []).append([round(float(x), 3) for x in np.dot(case["fracs"][k], m)])
    num = [int(k) for k in case["num"]]
    for amts in ((2, 1, 3), (1.5, 0.5, 2.5)):
        a, b = (np.asarray(L.get_scaled_lattice(amts[:dim]).vecs, float) for L in (A, B))
        assert np.allclose(a, b, atol=1e-12) and np.allclose(a, [np.multiply(v, x) for v, x in zip(lat["vecs"], amts)]), amts
    built = []
    far = [float(case["far"]) * (not p) for p in per]
    far = [round(float(x), 3) for x in np.dot(far, m)] if case["hand"] else [0.0] * dim
    for L, f, mixed in ((A, plain, False), (B, other, True)):
        if case["hand"]:
            S = PeriodicStructure(L)
            for c, vs in motif.items():
                for v in vs:
                    S.add_site(c, f([round(x + y, 3) for x, y in zip(v, far)]))
        else:
            S = PeriodicStructure.build_from(L, num if not mixed else amounts(num, fs[0]), {c: [f(v) for v in vs] for c, vs in motif.items()})
        built.append(S)
    P, Q = built
    assert np.allclose(np.asarray(P.lattice.vecs, float), np.asarray(Q.lattice.vecs, float), atol=1e-12)
    assert tuple(map(bool, P.lattice.periodic)) == tuple(map(bool, Q.lattice.periodic))
    ids = sorted(P.site_ids)
    assert sorted(Q.site_ids) == ids
    loc = {}
    for i in ids:
        loc[i] = [float(x) for x in P.site_location(i)]
        assert P.site_class(i) == Q.site_class(i)
        assert np.allclose(loc[i], [float(x) for x in Q.site_location(i)], atol=1e-9), (i, loc[i], Q.site_location(i))
    M = G.mat({"vecs": [[float(x) for x in v] for v in P.lattice.vecs]})
    sims = [Simulation(SimulationState.from_struct(S), S) for S in built]
    hits = 0
    for n, (k, sh) in enumerate(case["probes"]):
        p = np.dot([s if f else 0 for s, f in zip(sh, per)], M)
        p = [round(float(x), 3) for x in (p + loc[ids[k % len(ids)]] if k < 45 and ids else p + 0.137)]
        want = P.id_at(plain(p))
        hits += want is not None
        for how in FORMS:
            q = form(p, how)
            for S, sim in zip(built, sims):
                assert S.id_at(q) == want, ("id at", q, S.id_at(q), "instead of", want)
                s = S.site_at(q)
                assert (None if s is None else s["_site_id"]) == want
                assert S.class_at(q) == (None if want is None else P.site_class(want))
                assert sim.state_at(q) == (None if want is None else {"_site_id": want})
            for L in (A, B):
                assert np.allclose(L.get_fractional_coords(q), A.get_fractional_coords(plain(p)), atol=1e-9)
                assert np.allclose(L.get_cartesian_coords(q), A.get_cartesian_coords(plain(p)), atol=1e-9)
                assert np.allclose(L.get_periodized_cartesian_coords(q), A.get_periodized_cartesian_coords(plain(p)), atol=1e-9)
                z = form([0.0] * dim, fs[n % len(fs)])
                assert abs(L.cartesian_periodic_distance(q, z) - A.cartesian_periodic_distance(plain(p), plain(z))) < 0.0011
    offs = [[round(loc[b][k] - loc[a][k], 3) for k in range(dim)] for a, b in zip(ids, ids[1:])][:4] + [[1.0] * dim]
    offs = [o for n, o in enumerate(offs) if o not in offs[:n]]
    given = [other(o) for o in offs]
    want = MotifNeighborhoodBuilder([plain(o) for o in offs]).get(P)
    for S in built:
        for nb in (MotifNeighborhoodBuilder(given).get(S),):
            for i in ids:
                assert T.nb_weights(nb, i) == T.nb_weights(want, i), ("offsets", given, "site", i)
    one, two = (DistanceNeighborhoodBuilder(case["cut"]).get(S) for S in built)
    for i in ids:
        x, y = T.nb_weights(one, i), T.nb_weights(two, i)
        for j in set(x) | set(y):
            d = x.get(j, y.get(j))
            assert (j in x and j in y and abs(x[j] - y[j]) < 0.0011) or abs(d - case["cut"]) < 0.002, (i, j)
    for D in (EuclideanDistanceMap, ManhattanDistanceMap):
        a, b = D([plain(o) for o in offs]), D(given)
        for o in offs:
            for how in FORMS:
                assert a.get_dist(plain(o)) == b.get_dist(form(o, how)) is not None, (o, how)
    return len(ids) >= 2 and hits > 0, sorted({case["vform"], *fs})


@st.composite
def strat_grid(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    n = draw(st.integers(2, 5 if dim == 2 else 3))
    return {"dim": dim, "size": n, "forms": draw(st.lists(st.sampled_from(FORMS), min_size=4, max_size=4)),
            "coords": draw(st.lists(st.lists(st.integers(-1, n), min_size=dim, max_size=dim), min_size=1, max_size=5)),
            "center": draw(st.lists(st.integers(0, 2 * n).map(lambda k: k / 2), min_size=dim, max_size=dim)),
            "radius": draw(st.sampled_from([1, 1.2, 2, 2.5]))}


def check_grid(case):
    from pylattica.discrete import PhaseSet
    from pylattica.structures.square_grid import DiscreteGridSetup

    setup = DiscreteGridSetup(PhaseSet(["bg", "P", "Q"]), dim=case["dim"])
    n, fs = case["size"], case["forms"]

    def coords(f):
        out = {"P": [], "Q": []}
        for k, v in enumerate(case["coords"]):
            out["PQ"[k % 2]].append(f(v, k))
        return out

    a = setup.setup_coords(n, "bg", coords(lambda v, k: tuple(float(x) for x in v)))
    b = setup.setup_coords(np.int64(n), "bg", coords(lambda v, k: form(v, fs[k % len(fs)])))
    assert a.state == b.state
    c = [float(x) for x in case["center"]]
    want = setup.add_particle_to_state(a.structure, a.state.copy(), tuple(c), case["radius"], "new")
    for how in FORMS:
        assert setup.add_particle_to_state(a.structure, a.state.copy(), form(c, how), case["radius"], "new") == want, how
    return want != a.state, fs


SUBS = [Sub("structures", strat, check, quick=250),
        Sub("grids", strat_grid, check_grid, quick=80)]
