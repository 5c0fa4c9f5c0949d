"""C02: periodization."""
import numpy as np
from hypothesis import strategies as st

from . import gens as G
from .harness import Sub

RULE = ("case = lattice x periodicity x points (far away, negative, on faces) x whole-vector shifts; "
        "non-trivial = some point lies outside the cell along a periodic axis")
ASSUMPTIONS = ["fractional results are compared with tolerance 1e-6 (1e-9 for periodize itself), and a "
               "point on a cell face may come out on either face of the same axis",
               "points are within about 1e4 cells of the origin"]

coord = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.0, 0.25, 1.5, -7.25, 1000.0, -999.5]),
    st.integers(-60, 60).map(lambda k: k / 12),
    st.floats(-20, 20, allow_nan=False, width=32),
)


@st.composite
def strat(draw):
    lat = draw(G.lattice_case(dims=(1, 2, 2, 3, 3, 4)))
    dim = len(lat["vecs"])
    pt = st.lists(coord, min_size=dim, max_size=dim)
    return {"lat": lat, "a": draw(pt), "b": draw(pt),
            "shift": draw(st.lists(st.integers(-5, 5), min_size=dim, max_size=dim)),
            "form": draw(st.sampled_from(["tuple", "array", "list"])),
            "single": draw(st.booleans())}


def incell(f, per, tol):
    for x, p in zip(f, per):
        if p:
            assert -tol <= x <= 1 + tol, f


def whole(d, per, tol):
    """d is whole along periodic axes and zero along the others."""
    for x, p in zip(d, per):
        if p:
            assert abs(x - round(x)) <= tol, d
        else:
            assert abs(x) <= tol, d


def check(case):
    from pylattica.core.lattice import pbc_diff_frac_vec, periodize

    lat = case["lat"]
    vecs, per, m = lat["vecs"], G.flags(lat), G.mat(lat)
    inv = np.linalg.inv(m)
    L = G.make_lattice(lat)
    conv = {"list": list, "tuple": tuple, "array": np.array}[case["form"]]
    a, b = case["a"], case["b"]
    # --- fractional
    arg = per[0] if isinstance(lat["periodic"], bool) and case["single"] else list(per) if lat["as_list"] else tuple(per)
    src = np.array(a, dtype=float)
    got = np.asarray(periodize(src, arg), float)
    assert src.tolist() == a, "input changed"
    incell(got, per, 1e-9)
    whole(got - np.array(a), per, 1e-9)
    again = np.asarray(periodize(got.copy(), arg), float)
    assert np.all(np.abs(again - got) < 1e-9) or _same(again, got, per, 1e-9), (got, again)
    # --- cartesian
    scale = 1 + max(abs(x) for x in a)
    tol = 1e-9 * scale * (1 + float(np.max(np.abs(m)))) * (1 + float(np.max(np.abs(inv)))) * 10
    tolf = max(tol, 1e-6)
    ca = np.dot(a, m)
    pa = np.asarray(L.get_periodized_cartesian_coords(conv([float(x) for x in ca])), float)
    fa = np.dot(pa, inv)
    incell(fa, per, tolf)
    whole(fa - np.array(a), per, tolf)
    # images
    sh = [s if p else 0 for s, p in zip(case["shift"], per)]
    cb = np.dot([x + s for x, s in zip(a, sh)], m)
    pb = np.asarray(L.get_periodized_cartesian_coords(conv([float(x) for x in cb])), float)
    assert _same(np.dot(pb, inv), fa, per, tolf), (pa.tolist(), pb.tolist())
    pp = np.asarray(L.get_periodized_cartesian_coords(conv([float(x) for x in pa])), float)
    assert _same(np.dot(pp, inv), fa, per, tolf), (pa.tolist(), pp.tolist())
    # --- differences
    d = np.asarray(pbc_diff_frac_vec(np.array(a), np.array(b), tuple(per)), float)
    plain = np.array(a) - np.array(b)
    whole(d - plain, per, 1e-9)
    for x, p in zip(d, per):
        if p:
            assert abs(x) <= 0.5 + 1e-9, d
    both = np.asarray(pbc_diff_frac_vec(np.array([a, b]), np.array([b, a]), tuple(per)), float)
    whole(both[0] - plain, per, 1e-9)
    whole(both[1] + plain, per, 1e-9)
    for row in both:
        assert all(abs(x) <= 0.5 + 1e-9 for x, p in zip(row, per) if p), both
    outside = any(p and not 0 <= x < 1 for x, p in zip(a, per))
    labels = ["outside"] if outside else []
    if any(p and x == int(x) for x, p in zip(a, per)):
        labels.append("on_face")
    if len(set(per)) > 1:
        labels.append("mixed_pbc")
    return outside, labels


def _same(f, g, per, tol):
    """Equal points of the cell: equal coordinates, except that a coordinate on
    a face of a periodic axis may show up on either face."""
    for x, y, p in zip(f, g, per):
        if abs(x - y) <= tol:
            continue
        if p and abs(abs(x - y) - 1) <= tol and min(abs(x), abs(y)) <= tol:
            continue
        return False
    return True


@st.composite
def strat_batch(draw):
    from .c01 import strat_batch as points

    c = draw(points())
    c["single"] = draw(st.booleans())
    return c


def check_batch(case):
    """Moving many points at once moves each of them."""
    from pylattica.core.lattice import pbc_diff_frac_vec, periodize

    from .c01 import batch

    lat = case["lat"]
    per, m = G.flags(lat), G.mat(lat)
    dim, n = len(per), case["n"]
    inv = np.linalg.inv(m)
    L = G.make_lattice(lat)
    pts, form = batch(case)
    pm = np.array(per)
    top = float(np.max(np.abs(pts), initial=1.0))

    def judge(f, tol):
        f = np.asarray(f, float)
        assert f.shape == pts.shape, (f.shape, pts.shape)
        d = f - pts
        bad = np.where(pm, np.abs(d - np.round(d)), np.abs(d)) > tol
        bad |= pm & ((f < -tol) | (f > 1 + tol))
        assert not bad.any(), ("point", pts[bad.any(axis=1)][0].tolist(), "became", f[bad.any(axis=1)][0].tolist())

    arg = per[0] if isinstance(lat["periodic"], bool) and case["single"] else list(per) if lat["as_list"] else tuple(per)
    judge(periodize(form(pts), arg), 1e-9 * top)
    carts = form(np.dot(pts, m).reshape(n, dim))
    held = np.array(carts, copy=True)
    got = np.asarray(L.get_periodized_cartesian_coords(carts), float)
    tol = 1e-7 * top * (1 + float(np.max(np.abs(m)))) * (1 + float(np.max(np.abs(inv))))
    judge(np.dot(got, inv).reshape(got.shape), tol)
    assert np.array_equal(np.array(carts), held), "points changed"
    ref = np.array(case["from"], float) / 3
    d = np.asarray(pbc_diff_frac_vec(form(pts), ref, tuple(per)), float)
    assert d.shape == pts.shape
    e = d - (pts - ref)
    assert (np.where(pm, np.abs(e - np.round(e)), np.abs(e)) <= 1e-9 * top).all()
    assert (~pm | (np.abs(d) <= 0.5 + 1e-9)).all()
    cells = {tuple(np.floor(p[pm])) for p in pts}
    return len(cells) > 1, ["single_flag"] if arg in (True, False) else []


SUBS = [Sub("periodize", strat, check, quick=2200), Sub("batch", strat_batch, check_batch, quick=300)]
