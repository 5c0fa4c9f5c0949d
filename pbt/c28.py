"""C28: Simulation.state_at and SimulationState.from_struct."""
import numpy as np
from hypothesis import strategies as st

from . import gens as G
from .c06 import build, sites_strategy, sdict
from .harness import Sub

RULE = ("case = structure x sequence of state updates and location queries (images, misses); non-trivial = a query "
        "through an image after an update; large = structures of up to 1100 sites, non-trivial = over 1000 sites")
ASSUMPTIONS = ["sites at least 0.05 apart; misses at least 0.01 from every site; positions clear of rounding ties"]


@st.composite
def strat(draw):
    lat = draw(G.lattice_case(dims=(1, 2, 2, 3)))
    dim = len(lat["vecs"])
    sh = st.lists(st.integers(-3, 3), min_size=dim, max_size=dim)
    ops = []
    for _ in range(draw(st.integers(5, 16))):
        k = draw(st.sampled_from(["set", "set", "batch", "query", "query", "query", "miss", "swap", "new"]))
        if k in ("set", "batch"):
            ops.append([k, draw(st.integers(0, 20)), draw(sdict)])
        elif k == "query":
            ops.append([k, draw(st.integers(0, 20)), draw(sh)])
        elif k == "swap":
            ops.append([k, 0, 0])
        else:
            ops.append([k, draw(G.site_frac_strategy(dim)), draw(sh)])
    return {"lat": lat, "sites": draw(sites_strategy(dim, nmin=1)), "ops": ops, "from_struct": draw(st.booleans())}


def check(case):
    from pylattica.core import Simulation, SimulationState
    from pylattica.core.constants import SITE_ID

    S, sites = build(case)
    lat = case["lat"]
    per, m = G.flags(lat), G.mat(lat)
    if case["from_struct"]:
        state = SimulationState.from_struct(S)
        model = {e[0]: {SITE_ID: e[0]} for e in sites}
        assert sorted(state.site_ids()) == sorted(model)
        assert {i: state.get_site_state(i) for i in state.site_ids()} == model
        assert state.size == len(sites)
        assert state.get_general_state() == {}
    else:
        state = SimulationState()
        model = {}
    sim = Simulation(state, S)
    assert sim.structure is S and sim.state is state
    updated = hit = 0
    for kind, x, y in case["ops"]:
        if kind == "new":  # a site is added at a place that was empty
            loc = [float(v) for v in np.dot(x, m)]
            if G.near_tie(loc) or any(G.min_image(loc, e[2], lat["vecs"], per) < 0.05 for e in sites):
                continue
            shifted = tuple(float(v) for v in np.dot([a + (k if p else 0) for a, k, p in zip(x, y, per)], m))
            assert sim.state_at(tuple(loc)) is None and sim.state_at(shifted) is None
            sid = S.add_site("new", tuple(loc))
            sites.append((sid, "new", loc))
            assert sim.state_at(shifted) == model.get(sid) == sim.state_at(tuple(loc))
            sim.state.set_site_state(sid, {"a": "added"})
            model[sid] = {**model.get(sid, {SITE_ID: sid}), "a": "added"}
            assert sim.state_at(shifted) == model[sid] == sim.state_at(tuple(loc))
            continue
        if kind == "miss":
            f = [a + (k if p else 0) for a, k, p in zip(x, y, per)]
            loc = [float(v) for v in np.dot(f, m)]
            if any(G.min_image(loc, e[2], lat["vecs"], per) < 0.01 for e in sites):
                continue
            assert sim.state_at(tuple(loc)) is None
            continue
        if not sites:
            continue
        if kind == "swap":
            sim.state = sim.state.copy()
            continue
        sid, _, loc = sites[x % len(sites)]
        if kind == "set":
            sim.state.set_site_state(sid, y)
            model[sid] = {**model.get(sid, {SITE_ID: sid}), **y}
            updated += 1
        elif kind == "batch":
            sim.state.batch_update({"GENERAL": {"t": 1}, "SITES": {sid: y}})
            model[sid] = {**model.get(sid, {SITE_ID: sid}), **y}
            updated += 1
        else:
            q = np.asarray(loc) + np.dot([k if p else 0 for k, p in zip(y, per)], m)
            q = tuple(float(v) for v in q)
            got = sim.state_at(q)
            assert got == model.get(sid), (got, model.get(sid))
            if updated and any(k and p for k, p in zip(y, per)):
                hit += 1
    return hit > 0, ["from_struct"] if case["from_struct"] else ["partial_state"]


@st.composite
def strat_large(draw):
    dim = draw(st.sampled_from([2, 3]))
    num = draw(st.sampled_from([[32, 32], [101, 11], [7, 150], [40, 3]] if dim == 2 else [[10, 10, 11], [4, 30, 9], [2, 2, 3]]))
    return {"dim": dim, "num": num, "set": draw(st.lists(st.integers(0, 1200), max_size=6)),
            "order": draw(st.sampled_from(["as is", "reversed", "odd first"])), "shift": draw(st.integers(-2, 2))}


def check_large(case):
    """Structures of many sites."""
    from pylattica.core import Lattice, PeriodicStructure, Simulation, SimulationState
    from pylattica.core.constants import LOCATION, SITE_ID

    dim = case["dim"]
    L = Lattice([tuple(float(i == j) for j in range(dim)) for i in range(dim)])
    S = PeriodicStructure.build_from(L, case["num"], {"A": [(0.25,) * dim]})
    ids = list(S.site_ids)
    n = 1
    for k in case["num"]:
        n *= k
    state = SimulationState.from_struct(S)
    assert state.size == n and sorted(state.site_ids()) == sorted(ids)
    assert all(state.get_site_state(i) == {SITE_ID: i} for i in ids) and state.get_general_state() == {}
    order = {"as is": ids, "reversed": ids[::-1], "odd first": ids[1::2] + ids[::2]}[case["order"]]
    full = SimulationState()
    for i in order:
        full.set_site_state(i, {"v": 3 * i})
    for k in case["set"]:
        full.set_site_state(ids[k % n], {"v": 3 * ids[k % n]})
    sim = Simulation(full, S)
    for s in S.sites()[:: max(1, n // 150)]:
        q = tuple(float(x) + k * case["shift"] for x, k in zip(s[LOCATION], case["num"]))
        assert sim.state_at(q) == {SITE_ID: s[SITE_ID], "v": 3 * s[SITE_ID]}, (q, sim.state_at(q))
        assert sim.state_at(tuple(x + 0.5 for x in q)) is None
    return n > 1000, ["dim%d" % dim, case["order"]]


SUBS = [Sub("large", strat_large, check_large, quick=14, thorough=300),
        Sub("state_at", strat, check, quick=1200)]
