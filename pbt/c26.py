"""C26: conversion to and from pymatgen."""
import numpy as np
from hypothesis import strategies as st

from . import gens as G
from .harness import Sub

RULE = ("case = three-dimensional lattice (triclinic, rotated, left-handed ones included) x periodicity of each axis x "
        "species and fractional positions, inside or outside the cell; non-trivial = at least two species or sites")
ASSUMPTIONS = ["positions are at least 0.05 apart and do not sit on a rounding tie at three decimals",
               "sites shared by several species are converted to pylattica only; their label is not a species of pymatgen"]
EL = ["Na", "Cl", "Fe", "O", "H", "U", "Na+", "Cl-", "Fe2+", "Fe3+", "O2-", "X0+", "Na0+"]
MIXED = ["K:0.5, Na:0.5", "Na+:0.5", "Fe:0.25, Cl:0.25, O:0.25"]  # sites shared by several species


def species(label):
    """What pymatgen wants for a label."""
    if ":" not in label:
        return label
    return {e.split(":")[0].strip(): float(e.split(":")[1]) for e in label.split(",")}


@st.composite
def strat(draw):
    lat = draw(G.lattice_case(dims=(3,), min_height=0.8))
    k = draw(st.sampled_from([1.0, 2.0, 3.5]))
    lat["vecs"] = [[x * k for x in v] for v in lat["vecs"]]
    n = draw(st.sampled_from([1, 2, 3, 4, 6]))
    els = EL + MIXED if draw(st.integers(0, 4)) == 0 else draw(st.sampled_from([EL, EL[:6], ["Fe", "Fe2+", "Fe3+"]]))
    return {"lat": lat, "sites": [{"el": draw(st.sampled_from(els)), "frac": draw(G.site_frac_strategy(3)),
                                   "shift": draw(st.sampled_from([[0, 0, 0]] * 4 + [[1, 0, -1], [-2, 1, 0]]))}
                                  for _ in range(n)],
            "size": draw(st.sampled_from([[1, 1, 1], [2, 1, 1], [1, 2, 3], [2, 2, 2]])),
            "numpy": draw(st.booleans())}


def pick(case):
    per = G.flags(case["lat"])
    m = G.mat(case["lat"])
    kept = G.spread_sites([s["frac"] for s in case["sites"]], case["lat"]["vecs"], [True] * 3, 0.06)
    out = []
    for i in kept:
        s = case["sites"][i]
        f = [x + (k if p else 0) for x, k, p in zip(s["frac"], s["shift"], per)]
        out.append((s["el"], f, [float(x) for x in np.dot(f, m)]))
    return out, per


def match(found, want, vecs, per, tol=0.002):
    """Matches (species, cart) lists up to lattice translations."""
    assert len(found) == len(want), (len(found), len(want))
    left = list(want)
    for sp, c in found:
        hit = [k for k, (s, w) in enumerate(left) if s == sp and G.congruent(c, w, vecs, per, tol)]
        assert hit, ("no such site", sp, c, "among", left)
        del left[hit[0]]


def check(case):
    from pymatgen.core import Lattice as PL
    from pymatgen.core import Structure as PS
    from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter
    from pylattica.core.constants import LOCATION, SITE_CLASS, SITE_ID
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC

    conv = PymatgenStructureConverter()
    sites, per = pick(case)
    vecs = case["lat"]["vecs"]
    m = np.array(vecs)
    pl = PL(m, pbc=tuple(per))
    yl = conv.to_pylattica_lattice(pl)
    assert np.allclose(np.array(yl.vecs), m, atol=1e-9) and np.allclose(yl.matrix, m, atol=1e-9)
    assert [bool(x) for x in yl.periodic] == per, ("periodicity", yl.periodic, per)
    back = conv.to_pymatgen_lattice(yl)
    assert np.allclose(back.matrix, m, atol=1e-9) and [bool(x) for x in back.pbc] == per, (back.pbc, per)
    own = conv.to_pymatgen_lattice(G.make_lattice(case["lat"]))
    assert np.allclose(own.matrix, m, atol=1e-9) and [bool(x) for x in own.pbc] == per, (own.pbc, per)
    if not sites:
        return False, ["empty"]
    ps = PS(pl, [species(e) for e, _, _ in sites], [f for _, f, _ in sites])
    want = [(e, c) for e, _, c in sites]
    S, state = conv.to_pylattica_structure_and_state(ps)

    def listing(T):
        return [(s[SITE_CLASS], [float(x) for x in s[LOCATION]]) for s in T.sites()]

    assert [bool(x) for x in S.lattice.periodic] == per and np.allclose(S.lattice.matrix, m, atol=1e-9)
    match(listing(S), want, vecs, per)
    assert sorted(state.site_ids()) == sorted(S.site_ids)
    for s in S.sites():
        assert state.get_site_state(s[SITE_ID])[OCC] == s[SITE_CLASS], (s, state.get_site_state(s[SITE_ID]))
    # the builder tiles the crystal
    size = case["size"]
    B = conv.to_pylattica_structure_builder(ps)
    big = B.build(tuple(size))
    tiled = [(e, list(np.array(c) + np.dot([a, b, d], m))) for e, c in want
             for a in range(size[0]) for b in range(size[1]) for d in range(size[2])]
    bigv = [[x * k for x in v] for v, k in zip(vecs, size)]
    match(listing(big), tiled, bigv, per)
    assert np.allclose(big.lattice.matrix, bigv, atol=1e-9)
    labels = []
    if not all(per):
        labels.append("open_axis")
    if any(any(s["shift"]) for s in case["sites"]):
        labels.append("outside_cell")
    if len({e for e, _ in want}) < len(want):
        labels.append("species_repeated")
    if any(e[-1] in "+-" for e, _ in want):
        labels.append("oxidation_states")
    if any(":" in e for e, _ in want):
        # the label of a shared site is not a species of pymatgen
        return len(want) > 1, labels + ["shared_site"]
    # back to pymatgen
    for T, v, exp in ((S, vecs, want), (big, bigv, tiled)):
        P2 = conv.to_pymatgen_structure(T)
        assert np.allclose(P2.lattice.matrix, v, atol=1e-9) and [bool(x) for x in P2.lattice.pbc] == per
        match([(x.species_string, [float(y) for y in x.coords]) for x in P2.sites], exp, v, per)
    S2, _ = conv.to_pylattica_structure_and_state(conv.to_pymatgen_structure(S))
    match(listing(S2), want, vecs, per, 0.004)
    assert len(S2.site_ids) == len(S.site_ids)
    return len(want) > 1, labels


SUBS = [Sub("crystals", strat, check, quick=500, shards=6)]
