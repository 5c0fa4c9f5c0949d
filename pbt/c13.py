"""C13: distance and annular neighbourhoods."""
from hypothesis import strategies as st

from . import gens as G
from . import structs as T
from .harness import Sub

RULE = ("case = tiled structure (oblique lattices, classes, periodicity mixtures) x cutoff or radii; non-trivial = some "
        "pair of sites is a neighbour and some pair is not")
ASSUMPTIONS = ["pairs whose distance is within 0.002 of a cutoff or radius may be in or out, except where all "
               "distances are exact at three decimals (exact lattices), where the comparison is strict",
               "distances are those between the locations the structure reports"]


@st.composite
def strat(draw):
    c = draw(T.struct_case())
    c["cut"] = draw(st.one_of(st.sampled_from([0.5, 0.75, 1.01, 1.2, 1.5, 2.1, 3.0, 4.5]),
                              st.integers(1, 500).map(lambda k: k / 100), st.integers(1, 30)))
    c["between"] = draw(st.one_of(st.none(), st.integers(0, 12)))  # cut between two of the distances that occur
    c["inner"] = draw(st.one_of(st.just(0.0), st.integers(0, 300).map(lambda k: k / 100)))
    c["twice"] = draw(st.integers(0, 3)) == 0
    c["grow"] = draw(st.integers(0, 3)) == 0
    c["base"] = draw(st.sampled_from([0, 0, 0, 900, -70000]))  # how far off along open axes
    c["away"] = draw(st.one_of(st.none(), st.none(), st.lists(st.lists(st.integers(-3, 3), min_size=3, max_size=3).map(
        lambda k: k[:len(c["lat"]["vecs"])]), min_size=1, max_size=4)))
    c["only"] = draw(st.sampled_from([None, None, *T.CLASSES, "Z"]))
    return c


def expect(S, model, vecs, per, member):
    """{site: (must, may, {other: dist})}"""
    ids = [e[0] for e in model]
    loc = {i: [float(x) for x in S.site_location(i)] for i in ids}
    D = G.pair_min_images([loc[i] for i in ids], vecs, per)
    out = {}
    for a, i in enumerate(ids):
        must, may, dist = set(), set(), {}
        for b, j in enumerate(ids):
            if i == j:
                continue
            r = member(float(D[a, b]))
            if r is not False:
                may.add(j)
            if r is True:
                must.add(j)
            dist[j] = float(D[a, b])
        out[i] = (must, may, dist)
    return out


def judge(nb, exp, ids, only_ids):
    for i in ids:
        got = T.nb_set(nb, i)
        if only_ids is not None and i not in only_ids:
            assert not got, ("site of another class has neighbours", i, got)
            assert not T.nb_weights(nb, i)
            continue
        must, may, dist = exp[i]
        assert must <= got, ("site", i, "misses neighbours", {j: dist[j] for j in must - got})
        assert got <= may, ("site", i, "has wrong neighbours", {j: dist.get(j) for j in got - may})
        w = T.nb_weights(nb, i)
        assert set(w) == got
        for j, x in w.items():
            assert abs(x - dist[j]) <= 0.0005 + 1e-6, ("weight", i, j, x, dist[j])
    if only_ids is None:
        rel = {(i, j) for i in ids for j in T.nb_set(nb, i)}
        for i, j in rel:
            assert (j, i) in rel or j not in exp[i][0], ("not symmetric", i, j)


def check(case):
    from pylattica.core.neighborhood_builders import AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder

    S, model, vecs, per = T.build(case)
    ids = [e[0] for e in model]
    eps = 0.002
    cut = case["cut"]
    if case["between"] is not None and len(ids) > 1:
        D = G.pair_min_images([[float(x) for x in S.site_location(i)] for i in ids], vecs, per)
        ds = sorted({round(float(d), 3) for row in D for d in row} - {0.0})
        k = case["between"] % len(ds)
        cut = ds[k] + 0.0173 if k + 1 == len(ds) else (ds[k] + ds[k + 1]) / 2
    inner, outer = min(case["inner"], cut), max(case["inner"], cut)

    def below(d):
        return None if abs(d - cut) < eps else d < cut

    def ring(d):
        if abs(d - inner) < eps or abs(d - outer) < eps:
            return None
        return inner < d < outer

    only = case["only"]
    only_ids = None if only is None else {e[0] for e in model if e[1] == only}
    kw = {} if only is None else {"site_class": only}
    e1 = expect(S, model, vecs, per, below)
    judge(T.reused(DistanceNeighborhoodBuilder(cut), case, S, **kw), e1, ids, only_ids)
    e2 = expect(S, model, vecs, per, ring)
    judge(T.reused(AnnularNeighborhoodBuilder(inner, outer), case, S, **kw), e2, ids, only_ids)
    if case.get("grow") and len(ids) > 1:  # the builders follow a structure that grows
        b1, b2 = DistanceNeighborhoodBuilder(cut), AnnularNeighborhoodBuilder(inner, outer)
        from pylattica.core import PeriodicStructure

        S2 = PeriodicStructure(G.make_lattice(T.big_lat(case)))
        half = len(ids) // 2
        for k, (_, c, loc) in enumerate(model):
            if k == half:
                b1.get(S2, **kw)
                b2.get(S2, **kw)
            assert S2.add_site(c, tuple(loc)) == ids[k]
        judge(b1.get(S2, **kw), e1, ids, only_ids)
        judge(b2.get(S2, **kw), e2, ids, only_ids)
    some = any(e1[i][0] for i in e1)
    notall = any(len(e1[i][1]) < len(ids) - 1 for i in e1)
    labels = []
    if len({e[1] for e in model}) > 1:
        labels.append("classes")
    if only is not None:
        labels.append("one_class")
    if len(set(per)) > 1:
        labels.append("mixed_pbc")
    return bool(some and notall), labels


@st.composite
def strat_strict(draw):
    dim = draw(st.integers(1, 3))
    big = draw(st.integers(0, 11)) == 0  # many neighbours per site
    return {"size": draw(st.integers(3, {1: 12, 2: 6, 3: 4}[dim])) if not big else {1: 140, 2: 11, 3: 5}[dim], "dim": dim,
            "per": draw(st.lists(st.booleans(), min_size=dim, max_size=dim)),
            "in2": draw(st.integers(0, 5)), "out2": draw(st.sampled_from([1, 1, 4, 4, 9, 2, 5, 16, 25] if not big else [{1: 45 ** 2, 2: 25, 3: 9}[dim]])),
            "scale": draw(st.sampled_from([1.0, 2.0, 0.5]))}


def check_strict(case):
    """Integer grids: membership at exactly the radius is decided exactly."""
    import itertools

    from pylattica.core import Lattice, PeriodicStructure
    from pylattica.core.neighborhood_builders import AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder

    dim, n, sc, per = case["dim"], case["size"], case["scale"], case["per"]
    vecs = [tuple(float(n * sc) if i == j else 0.0 for j in range(dim)) for i in range(dim)]
    S = PeriodicStructure(Lattice(vecs, tuple(per)))
    pts = list(itertools.product(range(n), repeat=dim))
    ids = {S.add_site("A", tuple(x * sc for x in p)): p for p in pts}

    def d2(p, q):
        t = 0
        for x, y, f in zip(p, q, per):
            k = abs(x - y)
            t += (min(k, n - k) if f else k) ** 2
        return t

    # radii that are exact squares, so that a distance can equal the radius
    out = int(round(case["out2"] ** 0.5))
    inn = case["in2"] if case["in2"] < out else 0
    nd = DistanceNeighborhoodBuilder(out * sc).get(S)
    na = AnnularNeighborhoodBuilder(inn * sc, out * sc).get(S)
    for i, p in ids.items():
        want = {j for j, q in ids.items() if j != i and d2(p, q) < out * out}
        got = T.nb_set(nd, i)
        assert got == want, ("cutoff", out * sc, p, sorted(ids[j] for j in got ^ want))
        want = {j for j, q in ids.items() if j != i and inn * inn < d2(p, q) < out * out}
        got = T.nb_set(na, i)
        assert got == want, ("ring", inn * sc, out * sc, p, sorted(ids[j] for j in got ^ want))
    return True, ["dim%d" % dim]


SUBS = [Sub("structures", strat, check, quick=700, shards=8),
        Sub("exact_radii", strat_strict, check_strict, quick=120)]
