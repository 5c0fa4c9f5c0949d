"""C03: periodic distance = minimum over all images."""
import numpy as np
from hypothesis import strategies as st

from . import gens as G
from .harness import Sub

RULE = ("case = lattice (oblique ones included) x periodicity x two or three points x whole-vector shifts; "
        "non-trivial = the plain distance differs from the minimum image distance")
ASSUMPTIONS = ["distances are compared with the rounding step of 0.001 (0.0005 plus float noise)"]

coord = st.one_of(
    st.sampled_from([0.0, 0.5, 0.25, 1 / 3, 2 / 3, 0.9, 0.99, 1.0, -0.4]),
    st.integers(0, 24).map(lambda k: k / 24),
    st.floats(-3, 3, allow_nan=False, width=32),
)


@st.composite
def strat(draw):
    lat = draw(G.lattice_case(dims=(1, 2, 2, 3, 3)))
    dim = len(lat["vecs"])
    pt = st.lists(coord, min_size=dim, max_size=dim)
    few = st.integers(-4, 4)
    sh = st.lists(few if draw(st.integers(0, 4)) else st.one_of(few, st.integers(-60000, 60000)), min_size=dim, max_size=dim)
    return {"lat": lat, "a": draw(pt), "b": draw(pt), "s1": draw(sh), "s2": draw(sh),
            "form": draw(st.sampled_from(["tuple", "array"])),
            "more": draw(st.lists(pt, max_size=3)), "nudge": draw(st.sampled_from([0.003, 0.01, 0.2]))}


def check(case):
    lat = case["lat"]
    per, m = G.flags(lat), G.mat(lat)
    L = G.make_lattice(lat)
    conv = {"tuple": tuple, "array": np.array}[case["form"]]

    def cart(f, s=None):
        if s is not None:
            f = [x + (k if p else 0) for x, k, p in zip(f, s, per)]
        return [float(x) for x in np.dot(f, m)]

    def dist(p, q):
        return float(L.cartesian_periodic_distance(conv(p), conv(q)))

    a, b = cart(case["a"]), cart(case["b"])
    want = G.min_image(a, b, lat["vecs"], per)
    tol = 0.0005 + 1e-6
    d = dist(a, b)
    assert abs(d - want) <= tol, ("distance", d, "minimum over images", want)
    assert abs(d * 1000 - round(d * 1000)) < 1e-6, ("not rounded to 3 decimals", d)
    assert abs(dist(b, a) - want) <= tol
    noise = 1e-9 * max(map(abs, case["s1"] + case["s2"]))  # of coordinates that far away
    d = dist(cart(case["a"], case["s1"]), cart(case["b"], case["s2"]))
    assert abs(d - want) <= tol + (noise if noise > 1e-6 else 0), ("distance", d, "shifted", case["s1"], case["s2"], want)
    assert dist(a, a) == 0
    assert dist(a, cart(case["a"], case["s1"])) == 0
    from pylattica.core.lattice import pbc_diff_cart

    assert abs(float(pbc_diff_cart(conv(a), conv(b), L)) - want) <= tol
    # other pairs of the same lattice, among them points next to a and b
    nudged = [a[0] + case["nudge"], *a[1:]]
    others = [cart(f) for f in case["more"]] + [nudged, [x + 0.004 for x in b]]
    for p in (a, b):
        for q in others:
            w = G.min_image(p, q, lat["vecs"], per)
            d2 = dist(p, q)
            assert abs(d2 - w) <= tol, ("distance", d2, "minimum over images", w, p, q)
    assert abs(dist(a, b) - want) <= tol
    plain = float(np.linalg.norm(np.array(a) - np.array(b)))
    fd = [x - y for x, y in zip(case["a"], case["b"])]
    naive = float(np.linalg.norm(np.dot([x - round(x) if p else x for x, p in zip(fd, per)], m)))
    labels = []
    if naive > want + 1e-3:
        labels.append("componentwise_rounding_not_minimal")
    if len(set(per)) > 1:
        labels.append("mixed_pbc")
    return plain > want + 1e-3, labels


SUBS = [Sub("min_image", strat, check, quick=2500)]
