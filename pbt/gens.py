"""Strategies shared by the sub-checks, and small independent geometry helpers.

The helpers (matrix inverse, wrapping, image enumeration) are written here from
the definitions; they never call pylattica.
"""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st

R3 = math.sqrt(3)

NAMED = {
    2: [
        [[0.0, 1.0], [1.0, 0.0]],
        [[1.0, 0.0], [0.0, 1.0]],
        [[1.0, 0.0], [0.5, R3 / 2]],
        [[1.0, 0.0], [-0.5, R3 / 2]],
        [[2.5, 0.0], [1.25, 2.5 * R3 / 2]],
        [[1.0, 0.2], [0.3, 1.1]],
        [[0.0, 2.0], [3.0, 0.0]],
    ],
    3: [
        [[0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]],
        [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]],
        [[0.0, 1.8, 1.8], [1.8, 0.0, 1.8], [1.8, 1.8, 0.0]],
        [[-1.4, 1.4, 1.4], [1.4, -1.4, 1.4], [1.4, 1.4, -1.4]],
        [[3.2, 0.0, 0.0], [-1.6, 1.6 * R3, 0.0], [0.0, 0.0, 5.1]],
        [[2.0, 0.0, 0.0], [0.3, 3.0, 0.0], [0.5, -0.7, 2.5]],
        [[1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 3.0]],
    ],
}


def heights(vecs):
    """Distance between opposite faces of the cell, per axis."""
    inv = np.linalg.inv(np.array(vecs, dtype=float))
    return [1.0 / float(np.linalg.norm(inv[:, i])) for i in range(len(vecs))]


def images(vecs):
    """How many images a search for the nearest one may have to go through."""
    m = np.array(vecs, dtype=float)
    inv = np.linalg.inv(m)
    r = float(np.sum(np.linalg.norm(m, axis=1))) / 2
    return float(np.prod(2 * r * np.linalg.norm(inv, axis=0) + 1))


def _milli(lo, hi):
    return st.integers(int(lo * 1000), int(hi * 1000)).map(lambda k: k / 1000)


@st.composite
def lattice_vecs(draw, dims=(1, 2, 3), exact=False, min_height=0.4, named=True, most_images=20000):
    """Vectors of a non-degenerate lattice.

    exact=True keeps every entry a multiple of 0.001.
    """
    dim = draw(st.sampled_from(list(dims)))
    fams = ["orth", "orth", "tri", "tri", "permuted"]
    if named and dim in NAMED:
        fams += ["named", "named"]
    if dim >= 2 and not exact:
        fams += ["rotated"]
    fam = draw(st.sampled_from(fams))
    if fam == "named":
        vs = draw(st.sampled_from(NAMED[dim]))
        if exact and any(abs(x * 1000 - round(x * 1000)) > 1e-9 for v in vs for x in v):
            vs = [[round(x, 3) for x in v] for v in vs]
        return [list(v) for v in vs]
    diag = draw(st.lists(st.one_of(st.sampled_from([1.0, 2.0, 0.5, 3.0, 1.5, 2.25, 0.8]), _milli(0.5, 4)),
                         min_size=dim, max_size=dim))
    vecs = [[0.0] * dim for _ in range(dim)]
    for i in range(dim):
        vecs[i][i] = diag[i]
    if fam in ("tri", "rotated"):
        for i in range(dim):
            for j in range(i):
                vecs[i][j] = draw(st.one_of(st.sampled_from([0.0, 0.5, -0.5, 1.0, 0.25]), _milli(-2.5, 2.5)))
        while dim == 3 and images(vecs) > most_images:
            vecs = [[x if i == j else round(x / 2, 3) for j, x in enumerate(v)] for i, v in enumerate(vecs)]
        if draw(st.booleans()):
            vecs = [list(r) for r in zip(*vecs)]
    if fam in ("permuted", "tri") and draw(st.booleans()):
        vecs = draw(st.permutations(vecs))
    if fam in ("orth", "permuted"):
        for i in range(dim):
            if draw(st.integers(0, 5)) == 0:
                vecs[i] = [-x if x else 0.0 for x in vecs[i]]
    vecs = [list(v) for v in vecs]
    if fam == "rotated":
        m = np.array(vecs)
        for i, j in itertools.combinations(range(dim), 2):
            a = draw(st.sampled_from([0.0, math.pi / 6, math.pi / 4, 1.0, 2.5]))
            g = np.eye(dim)
            g[i, i] = g[j, j] = math.cos(a)
            g[i, j] = math.sin(a)
            g[j, i] = -math.sin(a)
            m = m @ g
        vecs = [[float(x) for x in r] for r in m]
    hs = heights(vecs)
    if min(hs) < min_height:  # stretch instead of rejecting
        k = math.ceil(min_height / min(hs))
        vecs = [[x * k for x in v] for v in vecs]
        if exact:
            vecs = [[round(x, 3) for x in v] for v in vecs]
    return vecs


def periodic_flags(dim):
    """What a caller may pass as `periodic` (JSON form)."""
    return st.one_of(
        st.just(True),
        st.just(True),
        st.just(False),
        st.lists(st.booleans(), min_size=dim, max_size=dim),
    )


@st.composite
def lattice_case(draw, dims=(1, 2, 3), exact=False, min_height=0.4, most_images=20000):
    vecs = draw(lattice_vecs(dims=dims, exact=exact, min_height=min_height, most_images=most_images))
    per = draw(periodic_flags(len(vecs)))
    return {"vecs": vecs, "periodic": per, "as_list": draw(st.integers(0, 3)) == 0}


def flags(lat):
    per = lat["periodic"]
    if isinstance(per, bool):
        return [per] * len(lat["vecs"])
    return [bool(p) for p in per]


def make_lattice(lat):
    from pylattica.core import Lattice

    vecs = [tuple(v) for v in lat["vecs"]]
    per = lat["periodic"]
    if isinstance(per, list):
        per = list(per) if lat.get("as_list") else tuple(per)
    return Lattice(vecs, per)


def mat(lat):
    return np.array(lat["vecs"], dtype=float)


def wrap_frac(f, per, tol=1e-9):
    """Fractional coordinates moved into the cell along periodic axes."""
    out = []
    for x, p in zip(f, per):
        if p:
            x = x - math.floor(x + tol)
        out.append(x)
    return out


def congruent(a, b, vecs, per, tol=1e-6):
    """True when cartesian points a and b differ by whole vectors along the
    periodic axes (within a cartesian tolerance)."""
    m = np.array(vecs, dtype=float)
    d = np.dot(np.asarray(a, float) - np.asarray(b, float), np.linalg.inv(m))
    r = np.array([x - round(x) if p else x for x, p in zip(d, per)])
    return float(np.linalg.norm(np.dot(r, m))) <= tol


def min_image(a, b, vecs, per):
    """Smallest distance between a and any image of b, by enumeration.

    Starting from the reduced difference r, a shorter image r' satisfies
    |r'| <= |r|, hence |frac_i(r')| <= |r| * |column i of the inverse|; every
    shift allowed by that bound is tried.
    """
    m = np.array(vecs, dtype=float)
    inv = np.linalg.inv(m)
    d = np.dot(np.asarray(a, float) - np.asarray(b, float), inv)
    d = np.array([x - round(x) if p else x for x, p in zip(d, per)])
    r = float(np.linalg.norm(np.dot(d, m)))
    rng = []
    for i, p in enumerate(per):
        if not p:
            rng.append([0])
            continue
        bound = r * float(np.linalg.norm(inv[:, i])) + 1e-9
        rng.append(list(range(math.ceil(-bound - d[i]), math.floor(bound - d[i]) + 1)) or [0])
    shifts = np.array(list(itertools.product(*rng)), dtype=float)
    return float(np.min(np.linalg.norm((shifts + d) @ m, axis=1)))


def pair_min_images(locs, vecs, per):
    """Matrix of minimum image distances."""
    n = len(locs)
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            out[i, j] = out[j, i] = min_image(locs[i], locs[j], vecs, per)
    return out


def near_tie(cart, margin=0.02):
    """A coordinate so close to a half of 0.001 that float noise decides how it
    is rounded to three decimals."""
    for x in cart:
        y = abs(x) * 1000
        if abs(y - math.floor(y) - 0.5) < margin:
            return True
    return False


def site_frac_strategy(dim):
    """Fractional positions inside the cell: faces, simple fractions, generic."""
    one = st.one_of(
        st.sampled_from([0.0, 0.0, 0.5, 0.25, 0.75, 1 / 3, 2 / 3]),
        st.integers(0, 11).map(lambda k: k / 12),
        st.integers(0, 19).map(lambda k: k / 20),
    )
    return st.lists(one, min_size=dim, max_size=dim)


def spread_sites(fracs, vecs, per, min_sep=0.05):
    """Drops positions that (nearly) coincide with an earlier one modulo the
    periodic axes or sit on a rounding tie; returns kept indices."""
    m = np.array(vecs, dtype=float)
    kept = []
    carts = []
    for i, f in enumerate(fracs):
        c = np.dot(wrap_frac(f, per), m)
        if near_tie(c):
            continue
        if any(min_image(c, o, vecs, per) < min_sep for o in carts):
            continue
        kept.append(i)
        carts.append(c)
    return kept
