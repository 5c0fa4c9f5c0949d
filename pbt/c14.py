"""C14: motif neighbourhoods."""
import itertools

import numpy as np
from hypothesis import strategies as st

from . import gens as G
from . import structs as T
from .harness import Sub

RULE = ("case = structure with coordinates exact at three decimals x offset vectors (between sites, whole lattice "
        "vectors, to empty places, back to the site); non-trivial = some offset reaches a neighbour")
ASSUMPTIONS = ["lattice vectors, sites and offsets are multiples of 0.001 (the structure stores locations at that "
               "resolution; see known finding on irrational lattices)"]


@st.composite
def strat(draw):
    c = draw(T.struct_case(exact=True))
    c["offs"] = draw(st.lists(
        st.one_of(
            st.tuples(st.just("pair"), st.integers(0, 40), st.integers(0, 40), st.lists(st.integers(-1, 1), min_size=3, max_size=3)),
            st.tuples(st.just("pair"), st.just(0), st.integers(0, 5), st.lists(st.integers(-1, 1), min_size=3, max_size=3)),
            st.tuples(st.just("cell"), st.just(0), st.just(0), st.lists(st.integers(-2, 2), min_size=3, max_size=3)),
            st.tuples(st.just("pair"), st.integers(0, 9), st.integers(0, 9), st.lists(st.sampled_from([0, -40, 57, 211]), min_size=3, max_size=3)),
            st.tuples(st.just("cell"), st.just(0), st.just(0), st.lists(st.integers(-1, 1), min_size=3, max_size=3)),
            st.tuples(st.just("free"), st.just(0), st.just(0), st.lists(st.integers(-8, 8), min_size=3, max_size=3)),
        ).map(list), min_size=1, max_size=draw(st.sampled_from([8, 8, 14]))))
    c["form"] = draw(st.sampled_from(["tuple", "tuple", "list"]))
    c["twice"] = draw(st.integers(0, 3)) == 0
    c["base"] = draw(st.sampled_from([0, 0, 0, 900, -70000]))  # how far off along open axes
    c["away"] = draw(st.one_of(st.none(), st.none(), st.lists(st.lists(st.integers(-3, 3), min_size=3, max_size=3).map(
        lambda k: k[:len(c["lat"]["vecs"])]), min_size=1, max_size=4)))
    c["only"] = draw(st.sampled_from([None, None, None, *T.CLASSES]))
    return c


def offsets(case, model):
    m = G.mat(case["lat"])
    M = G.mat(T.big_lat(case))
    dim = len(m)
    out = []
    for kind, i, j, k in case["offs"]:
        k = k[:dim]
        if kind == "pair" and model:
            v = np.array(model[j % len(model)][2]) - np.array(model[i % len(model)][2]) + np.dot(k, M)
        elif kind == "cell":
            v = np.dot(k, m)
        else:
            v = np.array(k) * 0.125
        out.append([round(float(x), 3) + 0.0 for x in v])
    uniq = []
    for v in out:
        if v not in uniq:
            uniq.append(v)
    return uniq


def expected(S, model, offs, vecs, per):
    """{site: {neighbour: [lengths of the offsets leading there]}}"""
    ids = [e[0] for e in model]
    loc = np.array([[float(x) for x in S.site_location(i)] for i in ids])
    inv = np.linalg.inv(np.array(vecs))
    m = np.array(vecs)
    pm = np.array(per, float)
    out = {i: {} for i in ids}
    for v in offs:
        ln = sum(x * x for x in v) ** 0.5
        tgt = loc + np.array(v)
        for a, i in enumerate(ids):
            d = (loc - tgt[a]) @ inv
            d = d - np.round(d) * pm
            hit = np.where(np.linalg.norm(d @ m, axis=1) < 4e-4)[0]
            for b in hit:
                if ids[b] != i:
                    out[i].setdefault(ids[b], []).append(ln)
    return out


def judge(nb, exp, ids, only_ids=None, what=""):
    for i in ids:
        got = T.nb_set(nb, i, what)
        w = T.nb_weights(nb, i)
        assert set(w) == got
        if only_ids is not None and i not in only_ids:
            assert not got, ("site of another class has neighbours", i, got)
            continue
        want = set(exp[i])
        assert got == want, (what, "site", i, "missing", sorted(want - got), "unexpected", sorted(got - want))
        for j, x in w.items():
            assert any(abs(x - ln) <= 0.005 + 1e-6 for ln in exp[i][j]), ("weight", i, j, x, exp[i][j])


def check(case):
    from pylattica.core import MotifNeighborhoodBuilder

    S, model, vecs, per = T.build(case, exact=True)
    ids = [e[0] for e in model]
    offs = offsets(case, model)
    conv = tuple if case["form"] == "tuple" else list
    exp = expected(S, model, offs, vecs, per)
    only = case["only"]
    kw = {} if only is None else {"site_class": only}
    only_ids = None if only is None else {e[0] for e in model if e[1] == only}
    nb = T.reused(MotifNeighborhoodBuilder([conv(v) for v in offs]), case, S, True, **kw)
    judge(nb, exp, ids, only_ids)
    some = any(exp[i] for i in exp)
    trunc = any(len(exp[i]) != len(exp[ids[0]]) for i in exp) if ids else False
    labels = []
    if trunc:
        labels.append("differs_between_sites")
    if len(set(per)) > 1 or not per[0]:
        labels.append("open_axis")
    if case["form"] == "list":
        labels.append("list_offsets")
    return bool(some), labels


@st.composite
def strat_grid(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    hi = {1: 9, 2: 5, 3: 3}[dim]
    offs = draw(st.lists(st.lists(st.integers(-3, 3), min_size=dim, max_size=dim).map(tuple), min_size=1, max_size=9,
                         unique=True))
    return {"num": draw(st.lists(st.integers(1, hi), min_size=dim, max_size=dim)),
            "scale": draw(st.sampled_from([1, 1, 1, 0.5, 2.5, 0.05, 0.004])),
            "per": draw(st.lists(st.booleans(), min_size=dim, max_size=dim)),
            "holes": draw(st.lists(st.integers(0, 40), max_size=4)),
            "offs": [list(o) for o in offs]}


def check_grid(case):
    """Integer grids with holes: set definition with integer arithmetic."""
    from pylattica.core import Lattice, MotifNeighborhoodBuilder, PeriodicStructure

    num, per = case["num"], case["per"]
    dim = len(num)
    sc = case.get("scale", 1)

    def cart(p):
        return tuple(round(x * sc, 3) for x in p)

    S = PeriodicStructure(Lattice([cart([num[i] if i == j else 0 for j in range(dim)]) for i in range(dim)], tuple(per)))
    pts = list(itertools.product(*[range(k) for k in num]))
    holes = {h % len(pts) for h in case["holes"]} if len(pts) > 4 else set()
    at = {}
    for k, p in enumerate(pts):
        if k not in holes:
            at[p] = S.add_site("A", cart(p))
    nb = MotifNeighborhoodBuilder([cart(o) for o in case["offs"]]).get(S)
    exp = {}
    for p, i in at.items():
        exp[i] = {}
        for o in case["offs"]:
            q = []
            for x, d, n, f in zip(p, o, num, per):
                y = x + d
                if f:
                    y %= n
                q.append(y)
            j = at.get(tuple(q))
            if j is not None and j != i:
                exp[i].setdefault(j, []).append(sc * sum(x * x for x in o) ** 0.5)
    judge(nb, exp, list(at.values()))
    cut = not all(per) or holes
    return any(exp.values()), ["truncated"] if cut else ["torus"]


# ---- known finding: irrational lattices (see known_findings.json)
def check_irrational(case):
    """Hexagonal tiling, the six exact unit vectors as offsets."""
    from pylattica.core import MotifNeighborhoodBuilder
    from pylattica.structures.honeycomb import HoneycombTilingBuilder

    S = HoneycombTilingBuilder().build(case["size"])
    h = 3 ** 0.5 / 2
    nb = MotifNeighborhoodBuilder([(1, 0), (-1, 0), (0.5, h), (-0.5, h), (0.5, -h), (-0.5, -h)]).get(S)
    bad = [i for i in S.site_ids if len(T.nb_set(nb, i)) != 6]
    assert not bad, ("sites without six neighbours", len(bad), "of", len(S.site_ids))


SUBS = [Sub("structures", strat, check, quick=900, shards=6),
        Sub("grids", strat_grid, check_grid, quick=700)]
FINDING_SUBS = [Sub("irrational", None, check_irrational)]
