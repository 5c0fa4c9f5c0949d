"""Structures for neighbourhood checks (C13-C15)."""
import numpy as np
from hypothesis import strategies as st

from . import gens as G

CLASSES = ["O", "Os", "s", "A"]


@st.composite
def struct_case(draw, exact=False, dims=(1, 2, 2, 3), max_cells=None):
    """A lattice tiled with a motif, given as cart locations."""
    lat = draw(G.lattice_case(dims=dims, exact=exact, min_height=0.5, most_images=3000))
    dim = len(lat["vecs"])
    hi = {1: 8, 2: 4, 3: 2}[dim]
    num = draw(st.lists(st.sampled_from([2, 3, 1, 4, 5, 6, 7, 8][:hi]), min_size=dim, max_size=dim))
    n = draw(st.sampled_from([2, 1, 3]))
    if exact:
        one = st.one_of(st.just(0.0), st.sampled_from([0.0, 0.5, 0.25, 0.2, 0.125]))
    else:
        one = st.one_of(st.just(0.0), st.sampled_from([0.5, 0.25, 1 / 3, 2 / 3]), st.integers(0, 11).map(lambda k: k / 12))
    fr = [draw(st.lists(one, min_size=dim, max_size=dim)) for _ in range(n)]
    cls = [draw(st.sampled_from(CLASSES)) for _ in range(n)]
    return {"lat": lat, "num": num, "fracs": fr, "classes": cls}


def big_lat(case):
    lat = dict(case["lat"])
    lat["vecs"] = [[x * k for x in v] for v, k in zip(lat["vecs"], case["num"])]
    return lat


def locations(case, exact=False):
    """[(class, cart)] of the tiled sites, spread and clear of ties."""
    import itertools

    lat = case["lat"]
    big = big_lat(case)
    per = G.flags(lat)
    m = G.mat(lat)
    inv = np.linalg.inv(G.mat(big))
    kept = []
    fr = case["fracs"]
    for i, f in enumerate(fr):
        base = np.dot(f, m)
        if exact:
            base = np.round(base, 3)
        cells = list(itertools.product(*[range(k) for k in case["num"]]))
        locs = []
        ok = True
        for c in cells:
            loc = base + np.dot(c, m)
            w = np.dot(G.wrap_frac(np.dot(loc, inv), per, 1e-6), G.mat(big))
            if exact:
                loc = np.round(loc, 3)
            elif G.near_tie(w):
                ok = False
                break
            locs.append([float(x) for x in loc])
        if not ok:
            continue
        if any(G.min_image(base, o, lat["vecs"], [True] * len(per)) < 0.1 for o, _, _ in kept):
            continue
        kept.append((base, case["classes"][i], locs))
    out = [(c, loc) for _, c, locs in kept for loc in locs]
    away = case.get("away")
    if away and not all(per):  # sites outside the cell, along open axes
        M = G.mat(big)
        for n, (c, loc) in enumerate(out):
            k = [0 if p else x + case.get("base", 0) for p, x in zip(per, away[n % len(away)])]
            far = [float(x) for x in np.array(loc) + np.dot(k, M)]
            if exact:
                far = [round(x, 3) for x in far]
            if any(k) and not G.near_tie(far):
                out[n] = (c, far)
    return out


def build(case, exact=False):
    """(structure, [(id, class, cart)], vectors, periodic flags)."""
    from pylattica.core import PeriodicStructure

    big = big_lat(case)
    S = PeriodicStructure(G.make_lattice(big))
    model = []
    for c, loc in locations(case, exact):
        model.append((S.add_site(c, tuple(loc)), c, loc))
    return S, model, big["vecs"], G.flags(big)


def reused(builder, case, S, exact=False, **kw):
    """builder.get(S) from a builder that serves another structure before and after."""
    if not case.get("twice"):
        return builder.get(S, **kw)
    other = dict(case, num=case["num"][::-1], fracs=[[x / 2 for x in f] for f in case["fracs"]][::-1])
    S2 = build(other, exact)[0]
    builder.get(S2)
    nb = builder.get(S, **kw)
    builder.get(S2, **kw)
    return nb


def nb_set(nb, i, what=""):
    """Neighbour ids of a site, checked for duplicates, and their weights."""
    ids = list(nb.neighbors_of(i))
    assert len(ids) == len(set(ids)), (what, "duplicate neighbours", i, ids)
    return set(ids)


def nb_weights(nb, i):
    ws = list(nb.neighbors_of(i, include_weights=True))
    d = {}
    for j, w in ws:
        assert j not in d, ("duplicate neighbours", i, ws)
        d[j] = float(w)
    return d
