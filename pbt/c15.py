"""C15: stochastic and per-class neighbourhoods."""
import random

from hypothesis import strategies as st

from . import structs as T
from .harness import Sub

RULE = ("case = structure with up to three classes x tree of builders (distance, annular and motif leaves under "
        "stochastic and per-class nodes, nested up to three deep) x seed; a few sites are queried 260 times each; "
        "non-trivial = some site has at least two different possible neighbour sets, or two classes differ")
ASSUMPTIONS = ["a leaf built alone, for all sites, is the reference for that leaf (C13 and C14 judge leaves)",
               "random choice is the random module's; 260 queries per site make missing a component improbable "
               "(below 1e-9 per site for up to nine equally likely leaves)"]
QUERIES = 260


def leaf():
    return st.one_of(
        st.tuples(st.just("dist"), st.integers(3, 25)).map(list),
        st.tuples(st.just("ann"), st.integers(0, 8), st.integers(9, 25)).map(list),
        st.tuples(st.just("motif"), st.lists(st.lists(st.integers(-1, 1), min_size=3, max_size=3),
                                             min_size=0, max_size=5)).map(list),
    )


def stoch(children):
    return st.tuples(st.just("stoch"), st.lists(children, min_size=1, max_size=3)).map(list)


def wide():
    """A stochastic choice of many components."""
    m = st.lists(st.lists(st.integers(-1, 1), min_size=3, max_size=3), min_size=1, max_size=3)
    return st.tuples(st.just("stoch"), st.lists(st.tuples(st.just("motif"), m).map(list), min_size=4, max_size=8)).map(list)


def perclass(children):
    # (builders of classes that do not occur are never used)
    free = st.dictionaries(st.sampled_from([*T.CLASSES, *T.CLASSES, "", "Z", "0"]), children, max_size=3)
    # one builder serving several classes
    same = st.tuples(st.lists(st.sampled_from(T.CLASSES), min_size=2, max_size=3, unique=True), children).map(
        lambda t: {c: t[1] for c in t[0]})
    return st.tuples(st.just("class"), st.one_of(free, free, same)).map(list)


L1 = st.one_of(leaf(), leaf(), stoch(leaf()), perclass(leaf()))
TREE = st.one_of(stoch(leaf()), wide(), perclass(leaf()), stoch(L1), perclass(L1), perclass(stoch(leaf())),
                 perclass(st.one_of(leaf(), stoch(leaf()), perclass(stoch(leaf())))))


@st.composite
def strat(draw):
    c = draw(T.struct_case(exact=True, dims=(1, 2, 2, 3)))
    c["classes"] = draw(st.lists(st.sampled_from(T.CLASSES), min_size=len(c["classes"]), max_size=len(c["classes"])))
    c["tree"] = draw(TREE)
    c["share"] = draw(st.booleans())  # equal sub-trees are one builder object
    c["seed"] = draw(st.integers(0, 10**6))
    c["only"] = draw(st.sampled_from([None, None, None, *T.CLASSES]))
    return c


def build_tree(t, lat, pool=None):
    """The builder; with a pool, equal sub-trees share one builder object."""
    if pool is None:
        return _build_tree(t, lat, lambda c: build_tree(c, lat))
    key = repr(t)
    if key not in pool:
        pool[key] = _build_tree(t, lat, lambda c: build_tree(c, lat, pool))
    return pool[key]


def _build_tree(t, lat, sub):
    import numpy as np
    from pylattica.core.neighborhood_builders import (AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder,
                                SiteClassNeighborhoodBuilder, StochasticNeighborhoodBuilder)

    k = t[0]
    if k == "dist":
        return DistanceNeighborhoodBuilder(t[1] / 8 + 0.0007)
    if k == "ann":
        return AnnularNeighborhoodBuilder(t[1] / 8 + 0.0007, t[2] / 8 + 0.0007)
    if k == "motif":
        m = np.array(lat["vecs"], float)
        vs = {tuple(round(float(x), 3) + 0.0 for x in np.dot(v[: len(m)], m)) for v in t[1]}
        return MotifNeighborhoodBuilder(sorted(vs))
    if k == "stoch":
        return StochasticNeighborhoodBuilder([sub(c) for c in t[1]])
    return SiteClassNeighborhoodBuilder({c: sub(b) for c, b in t[1].items()})


def outcomes(t, lat, S, cls, memo):
    """{site: set of possible neighbour maps}, as frozensets of (id, weight)."""
    key = repr(t)
    if key in memo:
        return memo[key]
    if t[0] == "stoch":
        parts = [outcomes(c, lat, S, cls, memo) for c in t[1]]
        r = {i: set().union(*[p[i] for p in parts]) for i in cls}
    elif t[0] == "class":
        parts = {c: outcomes(b, lat, S, cls, memo) for c, b in t[1].items()}
        r = {i: (parts[cls[i]][i] if cls[i] in parts else {frozenset()}) for i in cls}
    else:
        nb = build_tree(t, lat).get(S)
        r = {i: {frozenset((j, round(w, 6)) for j, w in T.nb_weights(nb, i).items())} for i in cls}
    memo[key] = r
    return r


def check(case):
    S, model, _, _ = T.build(case, exact=True)
    cls = {e[0]: e[1] for e in model}
    if not cls:
        return False, ["empty"]
    lat = case["lat"]
    want = outcomes(case["tree"], lat, S, cls, {})
    only = case["only"]
    builder = build_tree(case["tree"], lat, {} if case["share"] else None)
    case["twice"] = case["share"]  # a builder may be asked several times
    if case["share"]:
        builder.get(S)
    nb = T.reused(builder, case, S, True, **({} if only is None else {"site_class": only}))
    random.seed(case["seed"])
    ids = sorted(cls)
    if only is not None:
        for i in ids:  # nothing is computed for the other classes
            if cls[i] != only:
                for _ in range(6):
                    assert not T.nb_set(nb, i) and not T.nb_weights(nb, i), ("site of another class", i, cls[i])
        ids = [i for i in ids if cls[i] == only]
    # sites with the most possibilities are queried often
    busy = sorted(ids, key=lambda i: (-len(want[i]), i))[:2] + ids[:1]
    for i in ids:
        full = want[i]
        bare = {frozenset(j for j, _ in m) for m in full}
        for _ in range(2):
            got = frozenset(T.nb_set(nb, i))
            assert got in bare, ("site", i, cls[i], "neighbours", sorted(got), "components give",
                                 [sorted(b) for b in bare])
            gotw = frozenset((j, round(w, 6)) for j, w in T.nb_weights(nb, i).items())
            assert gotw in full, ("site", i, "weighted", sorted(gotw), "components give", [sorted(b) for b in full])
    for i in set(busy):
        seen, seenw = set(), set()
        for _ in range(QUERIES):
            seen.add(frozenset(nb.neighbors_of(i)))
            seenw.add(frozenset((j, round(float(w), 6)) for j, w in nb.neighbors_of(i, include_weights=True)))
        bare = {frozenset(j for j, _ in m) for m in want[i]}
        assert seen == bare, ("site", i, "never returned", [sorted(b) for b in bare - seen], "unknown",
                              [sorted(b) for b in seen - bare])
        assert seenw == want[i], ("site", i, "weighted: never returned", [sorted(b) for b in want[i] - seenw])
    multi = any(len(want[i]) > 1 for i in ids)
    labels = [case["tree"][0]]
    if multi:
        labels.append("several_outcomes")
    kinds = {k for k in ("stoch", "class") if repr(case["tree"]).count("'%s'" % k)}
    if len(kinds) == 2:
        labels.append("nested_mix")
    if case["tree"][0] == "class" and any(c not in case["tree"][1] for c in cls.values()):
        labels.append("class_without_builder")
    return multi or len({frozenset(want[i]) for i in ids}) > 1, labels


SUBS = [Sub("trees", strat, check, quick=500, shards=6)]
