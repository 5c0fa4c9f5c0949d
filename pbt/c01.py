"""C01: fractional <-> Cartesian conversion, scaling, dictionary form."""
import json

import numpy as np
from hypothesis import strategies as st

from . import gens as G
from .harness import Sub

RULE = ("case = lattice (dim 1-6; orthogonal, sheared, rotated, permuted, named) x periodicity "
        "x points x cell counts; non-trivial = the matrix is not symmetric, or dim is not 2")
ASSUMPTIONS = ["lattices are non-degenerate (face distance >= 0.4)",
               "equality up to 1e-7 relative to the magnitude of the coordinates"]


def points(dim, n):
    c = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 1e-3, 1e4, -1e4]),
                  st.floats(-50, 50, allow_nan=False, width=32))
    return st.lists(st.lists(c, min_size=dim, max_size=dim), min_size=1, max_size=n)


@st.composite
def strat(draw):
    lat = draw(G.lattice_case(dims=(1, 2, 2, 3, 3, 4, 5, 6)))
    dim = len(lat["vecs"])
    return {"lat": lat, "pts": draw(points(dim, 4)),
            "num": draw(st.lists(st.integers(1, 6), min_size=dim, max_size=dim)),
            "form": draw(st.sampled_from(["list", "tuple", "array"]))}


def vsum(f, vecs):
    return [sum(fi * v[k] for fi, v in zip(f, vecs)) for k in range(len(vecs))]


def close(a, b, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, (a, b)
    assert np.all(np.abs(a - b) <= 1e-7 * (1 + scale)), (a.tolist(), b.tolist())


def check(case):
    lat, vecs = case["lat"], case["lat"]["vecs"]
    per = tuple(G.flags(lat))
    dim = len(vecs)
    L = G.make_lattice(lat)
    conv = {"list": list, "tuple": tuple, "array": np.array}[case["form"]]
    mag = max(abs(x) for v in vecs for x in v) + max(1 / h for h in G.heights(vecs))
    assert L.dim == dim
    assert tuple(bool(p) for p in L.periodic) == per, L.periodic
    close(L.vecs, vecs, 0)
    for v, ln in zip(vecs, L.vec_lengths):
        assert abs(ln - sum(x * x for x in v) ** 0.5) < 1e-9
    for f in case["pts"]:
        scale = dim * mag * mag * max(1.0, max(abs(x) for x in f))
        want = vsum(f, vecs)
        got = L.get_cartesian_coords(conv(f))
        close(got, want, scale)
        close(L.get_fractional_coords(conv([float(x) for x in got])), f, scale)
        back = L.get_fractional_coords(conv(f))
        close(vsum([float(x) for x in back], vecs), f, scale)
        close(L.get_cartesian_coords(back), f, scale)
    arr = np.array(case["pts"], dtype=float)
    scale = dim * mag * mag * max(1.0, float(np.max(np.abs(arr))))
    carr = L.get_cartesian_coords(arr)
    close(carr, [vsum(f, vecs) for f in case["pts"]], scale)
    close(L.get_fractional_coords(carr), arr, scale)

    # scaling
    S = L.get_scaled_lattice(conv(case["num"]))
    svecs = [[x * k for x in v] for v, k in zip(vecs, case["num"])]
    close(S.vecs, svecs, mag)
    assert tuple(bool(p) for p in S.periodic) == per
    assert S.dim == dim
    f = case["pts"][0]
    close(S.get_cartesian_coords(conv(f)), vsum(f, svecs), scale * 6)
    close(S.get_fractional_coords(L.get_cartesian_coords(conv(f))),
          [x / k for x, k in zip(f, case["num"])], scale * 6)
    close(L.vecs, vecs, 0)
    assert tuple(bool(p) for p in L.periodic) == per
    close(L.get_cartesian_coords(conv(f)), vsum(f, vecs), scale)

    # dictionary form, also of the scaled lattice
    for A, av in ((L, vecs), (S, svecs)):
        for d in (A.as_dict(), json.loads(json.dumps(A.as_dict()))):
            B = type(L).from_dict(d)
            close(B.vecs, av, mag)
            assert tuple(bool(p) for p in B.periodic) == per, B.periodic
            close(B.get_cartesian_coords(conv(f)), vsum(f, av), scale * 6)
            close(B.get_fractional_coords(B.get_cartesian_coords(conv(f))), f, scale * 6)
    sym = all(abs(vecs[i][j] - vecs[j][i]) < 1e-12 for i in range(dim) for j in range(dim))
    mixed = len(set(per)) > 1
    return (not sym or dim != 2), ["dim%d" % dim] + (["nonsym"] if not sym else []) + (["mixed_pbc"] if mixed else [])


@st.composite
def strat_batch(draw):
    lat = draw(G.lattice_case(dims=(1, 2, 2, 3, 3, 4, 5, 6)))
    dim = len(lat["vecs"])
    return {"lat": lat, "n": draw(st.one_of(st.integers(0, 40), st.sampled_from([64, 65, 100, 101, 128, 130, 257, 1000, 1025, 2500]))),
            "from": draw(points(dim, 1))[0], "by": draw(st.lists(st.integers(-7, 7), min_size=dim, max_size=dim)),
            "div": draw(st.sampled_from([1, 3, 8])), "fold": draw(st.booleans()), "form": draw(st.sampled_from(["array", "list", "fortran", "strided"]))}


def batch(case):
    """Many points on a line; (points, the points in the form of the case)."""
    n, dim = case["n"], len(case["from"])
    pts = np.array(case["from"], float) + np.outer(np.arange(n), case["by"]) / case["div"]
    return pts, lambda a: {"array": np.array, "list": lambda x: x.tolist(), "fortran": np.asfortranarray,
                           "strided": lambda x: np.repeat(x, 2, axis=0)[::2]}[case["form"]](a) if n else a


def check_batch(case):
    """Converting many points at once converts each of them."""
    lat, vecs = case["lat"], case["lat"]["vecs"]
    dim, m = len(vecs), G.mat(lat)
    L = G.make_lattice(lat)
    pts, form = batch(case)
    n = case["n"]
    mag = max(abs(x) for v in vecs for x in v) + max(1 / h for h in G.heights(vecs))
    scale = dim * mag * mag * float(np.max(np.abs(pts), initial=1.0))
    want = np.array([vsum(f, vecs) for f in pts.tolist()]).reshape(n, dim)
    arg = form(pts)
    held = np.array(arg, copy=True)
    close(L.get_cartesian_coords(arg), want, scale)
    close(L.get_fractional_coords(form(want)), pts, scale)
    assert np.array_equal(np.array(arg), held), "points changed"
    if case["fold"] and n and n % 2 == 0:  # a table of points
        close(L.get_cartesian_coords(pts.reshape(n // 2, 2, dim)), want.reshape(n // 2, 2, dim), scale)
        close(L.get_fractional_coords(want.reshape(n // 2, 2, dim)), pts.reshape(n // 2, 2, dim), scale)
    return n > 1 and any(case["by"]), ["over_100"] if n > 100 else []


SUBS = [Sub("convert", strat, check, quick=1800), Sub("batch", strat_batch, check_batch, quick=300)]
