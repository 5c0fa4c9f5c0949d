"""C27: distance maps and integer boxes."""
import itertools
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .harness import Sub

RULE = ("case = offsets of dimension 1-5 (integers and decimals), or bounds of a box (negative and empty ones "
        "included); non-trivial = a non-zero offset, or a box with at least two points")
ASSUMPTIONS = ["Euclidean lengths within 1e-9 of a rounding tie at two decimals may round either way"]

NUM = st.one_of(st.integers(-6, 6), st.integers(-40, 40).map(lambda k: k / 8), st.integers(-3000, 3000).map(lambda k: k / 1000),
               st.integers(-10**7, 10**7).map(lambda k: k / 1000))


@st.composite
def strat(draw):
    dim = draw(st.integers(1, 5))
    vec = st.lists(NUM, min_size=dim, max_size=dim)
    return {"offs": draw(st.lists(vec, min_size=1, max_size=8)), "a": draw(vec), "b": draw(vec)}


def check(case):
    from pylattica.core.distance_map import EuclideanDistanceMap, ManhattanDistanceMap, distance

    offs = [tuple(o) for o in case["offs"]]
    E, M = EuclideanDistanceMap(list(offs)), ManhattanDistanceMap(list(offs))
    for o in offs:
        exact = math.sqrt(sum(Fraction(x) ** 2 for x in o))
        e = E.get_dist(o)
        assert abs(e - exact) <= 0.005 + 1e-9 and abs(e * 100 - round(e * 100)) < 1e-6, ("euclidean", o, e, exact)
        man = float(sum(abs(Fraction(x)) for x in o))
        assert abs(M.get_dist(o) - man) < 1e-9, ("manhattan", o, M.get_dist(o), man)
    # an offset nobody listed has no distance
    for o in [*offs, tuple(case["a"]), tuple(case["b"])]:
        for p in (tuple(-x for x in o), o[::-1], tuple(abs(x) for x in o), tuple(x + 1 for x in o), tuple(case["a"])):
            if p not in offs:
                assert E.get_dist(p) is None and M.get_dist(p) is None, ("not listed", p, E.get_dist(p), M.get_dist(p))
    d = float(distance(np.array(case["a"]), np.array(case["b"])))
    exact = math.sqrt(sum((Fraction(x) - Fraction(y)) ** 2 for x, y in zip(case["a"], case["b"])))
    assert abs(d - exact) < 1e-9 * (1 + exact), (d, exact)
    # length of a vector of mixed magnitude, far beyond the grid
    return any(any(o) for o in offs), ["dim%d" % len(offs[0])]


@st.composite
def strat_box(draw):
    dim = draw(st.integers(1, 4))
    lb = draw(st.lists(st.integers(-5, 5), min_size=dim, max_size=dim))
    w = draw(st.lists(st.sampled_from([1, 2, 3, 4, 0, -2]), min_size=dim, max_size=dim))
    return {"lb": lb, "ub": [a + b for a, b in zip(lb, w)], "cube": [draw(st.integers(-4, 4)), draw(st.integers(-4, 4)), dim]}


def check_box(case):
    from pylattica.core.coordinate_utils import get_points_in_box, get_points_in_cube

    def judge(pts, lbs, ubs):
        got = [tuple(p) for p in pts]
        assert len(got) == len(set(got)), ("repeated points", got)
        n = math.prod(max(0, u - l) for l, u in zip(lbs, ubs))
        assert len(got) == n, (len(got), n)
        for p in got:
            assert len(p) == len(lbs) and all(x == int(x) and l <= x < u for x, l, u in zip(p, lbs, ubs)), (p, lbs, ubs)
        return n

    n = judge(get_points_in_box(list(case["lb"]), list(case["ub"])), case["lb"], case["ub"])
    lo, hi, dim = case["cube"]
    k = judge(get_points_in_cube(lo, hi, dim), [lo] * dim, [hi] * dim)
    assert (k == 0) == (hi <= lo)
    return n >= 2, ["empty" if n == 0 else "box"]


SUBS = [Sub("maps", strat, check, quick=800), Sub("boxes", strat_box, check_box, quick=600)]
