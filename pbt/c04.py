"""C04: structures tile the motif once into every unit cell."""
import itertools

import numpy as np
from hypothesis import strategies as st

from . import gens as G
from .harness import Sub

RULE = ("case = lattice x periodicity x cell counts x motif (classes, positions, fractional or Cartesian, "
        "class map or list, tuples/lists/arrays); non-trivial = at least two cells and two motif entries, or a "
        "lattice whose matrix is not symmetric")
ASSUMPTIONS = ["motif sites are at least 0.0035 apart modulo the periodic axes of every built structure",
               "site positions within 2e-5 of a rounding tie of the 3-decimal site resolution are left out",
               "locations are compared within 0.002"]

CLASSES = ["A", "Ab", "b", "site C", "_A"]


@st.composite
def strat(draw):
    lat = draw(G.lattice_case(dims=(1, 2, 2, 3, 3)))
    dim = len(lat["vecs"])
    hi = {1: 9, 2: 5, 3: 3}[dim]
    num = draw(st.lists(st.integers(1, hi), min_size=dim, max_size=dim))
    if draw(st.integers(0, 5)) == 0:  # one long axis
        num = [min(k, 2) for k in num]
        num[draw(st.integers(0, dim - 1))] = draw(st.sampled_from([10, 11, 13, 17, 21, 21, 101, 130, 260] if dim < 3 else [10, 11, 13, 17, 21]))
    n = draw(st.integers(1, 4))
    fr = [draw(G.site_frac_strategy(dim)) for _ in range(n)]
    cls = [draw(st.sampled_from(CLASSES)) for _ in range(n)]
    out = [draw(st.lists(st.integers(-1, 1), min_size=dim, max_size=dim)) if draw(st.integers(0, 4)) == 0 else [0] * dim
           for _ in range(n)]
    return {"lat": lat, "num": num, "fracs": fr, "classes": cls, "out": out,
            "fine": draw(st.sampled_from([0] * 19 + {1: [12, 30], 2: [5, 6], 3: [3, 3]}[dim])),
            "near": draw(st.sampled_from([None] * 6 + [0.004, 0.011, 0.03])),
            "frac_coords": draw(st.booleans()), "as_list": draw(st.integers(0, 3)) == 0,
            "vec_form": draw(st.sampled_from(["list", "tuple", "array"])),
            "via": draw(st.sampled_from(["build_from", "builder_tuple", "builder_int"])),
            "again": draw(st.sampled_from([0, 1, 1, 2])),
            "num_form": draw(st.sampled_from(["list", "tuple", "list", "tuple", "numpy", "array"]))}


def expected(case):
    """[(class, exact cartesian location, not wrapped)] of every (cell, entry)
    and the motif actually used."""
    lat = case["lat"]
    per, m = G.flags(lat), G.mat(lat)
    dim = len(lat["vecs"])
    num = list(case["num"])
    k = case.get("fine")
    if case["via"] == "builder_int":
        num = [min(num[0], {1: 300, 2: 21, 3: 6}[dim])] * dim
    if k:
        num = [min(x, 3 if dim < 3 else 2) for x in num]
    big = [[x * k for x in v] for v, k in zip(lat["vecs"], num)]
    bigm = np.array(big)
    inv = np.linalg.inv(bigm)
    entries = []  # (class, frac)
    given = list(zip(case["classes"], case["fracs"], case["out"]))
    if k:  # a motif of many sites of one class
        given += [(case["classes"][0], [x / k for x in p], [0] * dim) for p in itertools.product(range(k), repeat=dim)]
    near = case.get("near")
    if near:  # one more site close to the first
        c, f, o = given[0]
        step = np.dot([near] + [0.0] * (dim - 1), np.linalg.inv(m))
        given.append((c, [x + float(d) for x, d in zip(f, step)], o))
    for c, f, o in given:
        # entries differ modulo the lattice, so those outside the cell do not
        # coincide with sites of other cells, along open axes either
        f = [x + k for x, k in zip(f, o)]
        cells = itertools.product(*[range(k) for k in num])
        locs = [np.dot([x + k for x, k in zip(f, cell)], m) for cell in cells]
        wrapped = [np.dot(G.wrap_frac(np.dot(x, inv), per), bigm) for x in locs]
        if any(G.near_tie(w) for w in wrapped):
            continue
        if any(G.congruent(np.dot([x - y for x, y in zip(f, g)], m), np.zeros(dim), lat["vecs"], per, 0.06 if not near else 0.0035)
               or G.min_image(np.dot(f, m), np.dot(g, m), lat["vecs"], [True] * dim) < (0.05 if not near else 0.0035)
               for _, g, _ in entries):
            continue
        entries.append((c, f, locs))
    want = [(c, loc) for c, _, locs in entries for loc in locs]
    return want, entries, num, big, per, m


def check(case):
    from pylattica.core import PeriodicStructure, StructureBuilder

    want, entries, num, big, per, m = expected(case)
    lat = case["lat"]
    dim = len(lat["vecs"])
    conv = {"list": list, "tuple": tuple, "array": np.array}[case["vec_form"]]
    as_list = case["as_list"]
    motif = {}
    for c, f, _ in entries:
        vec = list(f) if case["frac_coords"] else [float(x) for x in np.dot(f, m)]
        motif.setdefault(c, []).append(conv(vec))
    if as_list:
        arg = [v for vs in motif.values() for v in vs]
        want = [("A", loc) for _, loc in want]
    else:
        arg = motif
    L = G.make_lattice(lat)
    if case["via"] == "build_from":
        n = {"tuple": tuple, "list": list, "array": np.array, "numpy": lambda x: tuple(np.int64(k) for k in x)}[case["num_form"]](num)
        S = PeriodicStructure.build_from(L, n, arg, frac_coords=case["frac_coords"])
    else:
        b = StructureBuilder(L, arg)
        b.frac_coords = case["frac_coords"]
        size = num[0] if case["via"] == "builder_int" else tuple(num)
        if case["num_form"] == "numpy":
            size = np.int64(size) if case["via"] == "builder_int" else tuple(np.int64(k) for k in num)
        if case["again"]:  # structures built before are structures of their own
            other = b.build(size if case["again"] == 1 else 1)
            for _ in range(2):
                try:
                    other.add_site("later", tuple(float(x) for x in np.dot([0.317 + 0.211 * _] * dim, m)))
                except AssertionError:  # occupied
                    pass
        S = b.build(size)
        for bad in (tuple(num) + (2,), tuple(num)[:-1]):
            try:
                b.build(bad)
            except ValueError:
                pass
            else:
                raise AssertionError("size of wrong length accepted: %r" % (bad,))
    # the lattice
    assert np.allclose(np.asarray(S.lattice.vecs, float), np.array(big), atol=1e-9), S.lattice.vecs
    assert [bool(p) for p in S.lattice.periodic] == per
    assert S.dim == dim
    assert np.allclose(np.asarray(L.vecs, float), m)
    judge_sites(S, want, big, per, 0.002)
    nonsym = bool(np.any(np.abs(m - m.T) > 1e-9))
    cells = int(np.prod(num))
    labels = ["frac" if case["frac_coords"] else "cart"]
    if nonsym:
        labels.append("nonsym")
    if len(set(per)) > 1 or not per[0]:
        labels.append("open_axis")
    if any(any(o) for o in case["out"]):
        labels.append("motif_outside_cell")
    return bool(entries) and (nonsym or (cells > 1 and len(entries) > 1)), labels


def judge_sites(S, want, vecs, per, tol):
    """The structure's sites are in bijection with the wanted (class, location)."""
    from pylattica.core.constants import LOCATION, SITE_CLASS, SITE_ID

    sites = S.sites()
    assert len(sites) == len(want), ("sites", len(sites), "wanted", len(want))
    ids = [s[SITE_ID] for s in sites]
    assert len(set(ids)) == len(ids)
    assert sorted(ids) == sorted(S.site_ids)
    m = np.array(vecs, float)
    inv = np.linalg.inv(m)
    left = list(range(len(want)))
    wantf = np.array([np.dot(loc, inv) for _, loc in want]) if want else np.zeros((0, len(vecs)))
    pm = np.array(per, float)
    for s in sites:
        loc = np.asarray(s[LOCATION], float)
        f = np.dot(loc, inv)
        for x, p, h in zip(f, per, G.heights(vecs)):
            if p:
                assert -tol / h <= x <= 1 + tol / h, ("site outside the cell", loc.tolist())
        d = wantf[left] - f
        d = d - np.round(d) * pm
        dist = np.linalg.norm(d @ m, axis=1)
        k = int(np.argmin(dist))
        assert dist[k] <= tol, ("site at unexpected location", loc.tolist(), s[SITE_CLASS])
        assert want[left[k]][0] == s[SITE_CLASS], ("class", s[SITE_CLASS], "wanted", want[left[k]][0])
        left.pop(k)
    classes = {c for c, _ in want}
    assert sorted(S.all_site_classes()) == sorted(classes), S.all_site_classes()
    seen = []
    for c in classes:
        part = S.sites(site_class=c)
        assert all(x[SITE_CLASS] == c for x in part)
        seen += [x[SITE_ID] for x in part]
    assert sorted(seen) == sorted(ids)
    for i in ids:
        s = S.get_site(i)
        assert s[SITE_ID] == i
        assert S.site_class(i) == s[SITE_CLASS]
        assert np.array_equal(np.asarray(S.site_location(i)), np.asarray(s[LOCATION]))


SUBS = [Sub("tiling", strat, check, quick=1200)]
