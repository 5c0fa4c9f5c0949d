"""C06: structures and simulations survive serialisation."""
import json
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from . import gens as G
from .harness import Sub

RULE = ("case = structure (lattice, periodicity, sites incl. cell faces, classes) and state (site and general, "
        "nested JSON values); non-trivial = at least two sites and a non-empty state or an oblique lattice")
ASSUMPTIONS = ["values and general-state keys are JSON-representable; site ids are integers",
               "sites are at least 0.05 apart and clear of 3-decimal rounding ties"]

values = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-10**6, 10**6),
              st.floats(-1e6, 1e6, allow_nan=False), st.text(max_size=6)),
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=4), c, max_size=3)),
    max_leaves=5,
)
keys = st.sampled_from(["a", "b", "DISCRETE_OCCUPANCY", "x y", "0", "é", "SITES", "GENERAL", ""])
sdict = st.dictionaries(keys, values, max_size=3)


@st.composite
def sites_strategy(draw, dim, nmin=0, nmax=10):
    n = draw(st.one_of(st.integers(nmin, nmax), st.integers(nmin, nmax), st.integers(nmin, 3 * nmax)))
    return [[draw(st.sampled_from(["A", "Ab", "cl é", "", 3, 0])), draw(G.site_frac_strategy(dim)),
             draw(st.lists(st.integers(-2, 2), min_size=dim, max_size=dim))] for _ in range(n)]


@st.composite
def strat(draw):
    lat = draw(G.lattice_case(dims=(1, 2, 2, 2, 3, 3)))
    dim = len(lat["vecs"])
    n = draw(st.integers(0, 4))
    return {"lat": lat, "sites": draw(sites_strategy(dim)),
            "general": draw(sdict), "state": [[draw(st.integers(-3, 200)), draw(sdict)] for _ in range(n)],
            "over": draw(st.sampled_from([0, 0, 300, 20000])),
            "per_site": draw(st.lists(sdict, max_size=12))}


def build(case):
    """(structure, [(id, class, cart)])."""
    from pylattica.core import PeriodicStructure

    lat = case["lat"]
    per, m = G.flags(lat), G.mat(lat)
    S = PeriodicStructure(G.make_lattice(lat))
    keep = G.spread_sites([s[1] for s in case["sites"]], lat["vecs"], per)
    model = []
    for i in keep:
        cls, f, sh = case["sites"][i]
        ff = [x + (k if p else 0) for x, k, p in zip(f, sh, per)]
        loc = [float(x) for x in np.dot(ff, m)]
        if any(not p for p in per) and G.near_tie(loc):
            continue
        model.append((S.add_site(cls, tuple(loc)), cls, loc))
    return S, model


def same_structure(S, T, model, case):
    lat = case["lat"]
    per = G.flags(lat)
    assert np.allclose(np.asarray(T.lattice.vecs, float), np.asarray(S.lattice.vecs, float), atol=1e-12, rtol=1e-12)
    assert [bool(p) for p in T.lattice.periodic] == per, T.lattice.periodic
    assert T.dim == S.dim
    assert sorted(T.site_ids) == sorted(S.site_ids) == sorted(e[0] for e in model)
    assert len(T.sites()) == len(model)
    for sid, cls, loc in model:
        assert T.site_class(sid) == cls == S.site_class(sid)
        assert np.allclose(np.asarray(T.site_location(sid), float), np.asarray(S.site_location(sid), float),
                           atol=1e-9), (sid, T.site_location(sid), S.site_location(sid))
        for q in (loc, S.site_location(sid), T.site_location(sid)):
            q = tuple(float(x) for x in q)
            assert S.id_at(q) == sid, ("original lookup", q)
            assert T.id_at(q) == sid, ("lookup after reload", q)
            assert T.class_at(q) == cls
    # a place without site
    probe = [float(x) for x in np.dot([0.37] * len(per), G.mat(lat))]
    if all(G.min_image(probe, e[2], lat["vecs"], per) > 0.01 for e in model):
        assert T.id_at(tuple(probe)) is None and S.id_at(tuple(probe)) is None


def check_structure(case):
    from pylattica.core import PeriodicStructure

    S, model = build(case)
    d = S.as_dict()
    txt = json.dumps(d)
    T1 = PeriodicStructure.from_dict(d)
    T2 = PeriodicStructure.from_dict(json.loads(txt))
    T3 = PeriodicStructure.from_dict(json.loads(json.dumps(T2.as_dict())))
    T4 = PeriodicStructure.from_dict(json.loads(json.dumps(S.as_dict(), sort_keys=True)))
    back = json.loads(txt)
    back["_sites"] = dict(reversed(list(back["_sites"].items())))
    for T in (T1, T2, T3, T4, PeriodicStructure.from_dict(back)):
        same_structure(S, T, model, case)
    # growing the copy leaves the original alone, and ids continue
    n = len(S.sites())
    m = G.mat(case["lat"])
    free = [float(x) for x in np.dot([0.43] * S.dim, m)]
    per = G.flags(case["lat"])
    if all(G.min_image(free, e[2], case["lat"]["vecs"], per) > 0.01 for e in model) and not G.near_tie(free):
        nid = T2.add_site("new", tuple(free))
        assert nid not in [e[0] for e in model]
        assert len(S.sites()) == n and S.id_at(tuple(free)) is None
    off = m - np.diag(np.diag(m))
    labels = ["over_ten_sites"] if len(model) > 10 else []
    labels += ["oblique"] if np.any(np.abs(off) > 1e-9) else []
    if len(set(per)) > 1:
        labels.append("mixed_pbc")
    if any(any(v == 0 for v in s[1]) for s in case["sites"]):
        labels.append("site_on_face")
    return len(model) >= 2, labels


def read_only(path, load):
    """Loads a file that the process may read but not write."""
    if os.geteuid() != 0:
        os.chmod(path, 0o444)
        return load(path)
    open_dir = tempfile.mkdtemp(prefix="pbt-ro-", dir="/tmp")
    try:
        os.chmod(open_dir, 0o755)
        copy = shutil.copy(path, os.path.join(open_dir, "sim.json"))
        os.chmod(copy, 0o444)
        try:
            os.seteuid(65534)
        except OSError:
            return load(copy)
        try:
            return load(copy)
        finally:
            os.seteuid(0)
    finally:
        shutil.rmtree(open_dir)


def check_simulation(case):
    from pylattica.core import Simulation, SimulationState

    S, model = build(case)
    state = SimulationState.from_struct(S)
    for sid, ups in zip([e[0] for e in model], case["per_site"]):
        state.set_site_state(sid, ups)
    for sid, ups in case["state"]:
        state.set_site_state(sid, ups)
    state.set_general_state(case["general"])
    want = {sid: json.loads(json.dumps(state.get_site_state(sid))) for sid in state.site_ids()}
    wantg = json.loads(json.dumps(state.get_general_state()))
    sim = Simulation(state, S)
    fd, path = tempfile.mkstemp(suffix=".json")
    os.write(fd, b"[0, 1, 2]\n" * case["over"])  # an older file of this name is replaced
    os.close(fd)
    try:
        sim.to_file(path)
        sim2 = Simulation.from_file(path)
        sim6 = read_only(path, Simulation.from_file) if len(model) % 3 == 0 else sim2
    finally:
        os.remove(path)
    sim3 = Simulation.from_dict(json.loads(json.dumps(sim.as_dict())))
    sim5 = Simulation.from_dict(json.loads(json.dumps(sim.as_dict(), sort_keys=True)))
    st4 = SimulationState.from_dict(json.loads(json.dumps(state.as_dict())))
    for s in (sim2.state, sim3.state, sim5.state, sim6.state, st4):
        assert {i: s.get_site_state(i) for i in s.site_ids()} == want
        assert s.get_general_state() == wantg
        assert s == state and state == s
    for s in (sim2, sim3, sim5, sim6):
        same_structure(S, s.structure, model, case)
        for sid, _, loc in model:
            assert s.state_at(tuple(loc)) == want[sid]
    assert {i: state.get_site_state(i) for i in state.site_ids()} == want
    labels = []
    if wantg:
        labels.append("general_state")
    if any(len(v) > 1 for v in want.values()):
        labels.append("site_values")
    return len(want) >= 1 and bool(labels), labels


@st.composite
def strat_large(draw):
    return {"size": draw(st.sampled_from([[33, 32], [1100], [11, 10, 10], [2, 520], [40, 30], [17, 17], [6, 5, 9]])),
            "classes": draw(st.lists(st.sampled_from(["A", "B", "c"]), min_size=1, max_size=3)),
            "values": draw(st.lists(values, min_size=1, max_size=4)), "every": draw(st.integers(1, 3))}


def check_large(case):
    from pylattica.core import Lattice, PeriodicStructure, Simulation, SimulationState

    size, dim = case["size"], len(case["size"])
    unit = np.eye(dim)
    S = PeriodicStructure(Lattice([tuple(float(x) * s for x in v) for v, s in zip(unit, size)]))
    state = SimulationState()
    want = []
    for k, p in enumerate(np.ndindex(*size)):
        c = case["classes"][k * 7 // 5 % len(case["classes"])]
        i = S.add_site(c, tuple(float(x) for x in p))
        u = {"v": case["values"][k % len(case["values"])]} if k % case["every"] == 0 else {}
        state.set_site_state(i, u)
        want.append((i, c, tuple(float(x) for x in p), json.loads(json.dumps(u))))
    fd, path = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        Simulation(state, S).to_file(path)
        sim = Simulation.from_file(path)
    finally:
        os.remove(path)
    for X, s in ((sim.structure, sim.state), (PeriodicStructure.from_dict(json.loads(json.dumps(S.as_dict()))), state)):
        assert len(X.site_ids) == len(want) == len(set(X.site_ids)) == s.size, ("sites", len(X.site_ids), "of", len(want))
        for i, c, loc, u in want:
            assert X.site_class(i) == c and tuple(map(float, X.site_location(i))) == loc, (i, X.get_site(i), c, loc)
            assert {k: v for k, v in s.get_site_state(i).items() if k != "_site_id"} == u, (i, s.get_site_state(i), u)
        for i, c, loc, u in want[:: max(1, len(want) // 60)]:
            assert X.id_at(tuple(x + n for x, n in zip(loc, size))) == i
    assert sim.state == state
    return len(want) > 1000, ["sites_%d" % len(want)]


SUBS = [Sub("structure", strat, check_structure, quick=1000), Sub("large", strat_large, check_large, quick=24),
        Sub("simulation", strat, check_simulation, quick=800)]
