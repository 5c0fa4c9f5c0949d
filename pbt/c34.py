"""C34: what a caller passes in is left as it is."""
import copy
import json
import os
import random
import tempfile

import numpy as np
from hypothesis import strategies as st

from . import gens as G
from . import rules
from . import structs as T
from .harness import Sub

RULE = ("case = generated arguments (vectors, motifs, coordinates, phase lists and amounts, dictionaries, states, results, "
        "structures, images' colour maps) as tuples, lists or arrays x a sequence of calls that use the same objects; "
        "every argument is compared with a copy taken before the first call; non-trivial = at least three calls")
ASSUMPTIONS = ["calls whose purpose is to change their argument (add_site, set_*_state, batch_update, add_step, load_steps, "
               "add_particle_to_state for the state it is given) are excepted for that argument"]


def frozen(x):
    """A comparable copy of an argument."""
    from pylattica.core import Lattice, PeriodicStructure, SimulationResult, SimulationState

    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.tolist(), x.flags.writeable)
    if isinstance(x, dict):
        return ("dict", [(type(k).__name__, k, frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(v) for v in x])
    if isinstance(x, SimulationState):
        return ("state", json.dumps(x.as_dict(), sort_keys=True))
    if isinstance(x, SimulationResult):
        return ("result", len(x), json.dumps([s.as_dict() for s in x.steps()], sort_keys=True))
    if isinstance(x, PeriodicStructure):
        return ("structure", json.dumps(x.as_dict()), list(x.site_ids))
    if isinstance(x, Lattice):
        return ("lattice", json.dumps(x.as_dict()), float(np.linalg.det(x.matrix)))
    if type(x).__name__ == "PhaseSet":
        return ("phases", list(x.phases))
    if hasattr(x, "as_dict") and type(x).__module__.startswith("pymatgen"):
        return ("pymatgen", json.dumps(x.as_dict(), sort_keys=True, default=str))
    return x if isinstance(x, (int, float, str, type(None))) else ("object", id(x))


class Watch:
    """Remembers arguments and what they held."""

    def __init__(self):
        self.seen = []
        self.calls = 0

    def __call__(self, x):
        if not any(x is y for y, _ in self.seen):
            self.seen.append((x, frozen(x)))
        return x

    def after(self, what):
        self.calls += 1
        for x, f in self.seen:
            assert frozen(x) == f, (what, "changed an argument, which was", f, "and is", frozen(x))


def form(v, how):
    """Coordinates as tuple, list or array."""
    return {"tuple": tuple, "list": list, "array": np.array}[how](v)


FORMS = st.sampled_from(["tuple", "list", "array"])

# ------------------------------------------------------------------ structures


@st.composite
def strat_structs(draw):
    c = draw(T.struct_case(exact=True))
    c["form"] = draw(FORMS)
    c["frac"] = draw(st.booleans())
    c["calls"] = draw(st.lists(st.sampled_from(["lattice", "build_from", "builder", "lookup", "distances", "neighbours",
                                                "dictionary", "state_from", "pymatgen", "box", "maps"]),
                               min_size=4, max_size=12))
    c["cut"] = draw(st.integers(1, 40)) / 10
    return c


def check_structs(case):
    from pylattica.core import Lattice, PeriodicStructure, Simulation, SimulationState, StructureBuilder
    from pylattica.core.constants import LOCATION
    from pylattica.core.coordinate_utils import get_points_in_box
    from pylattica.core.distance_map import EuclideanDistanceMap, ManhattanDistanceMap, distance
    from pylattica.core.lattice import pbc_diff_cart, pbc_diff_frac_vec, periodize
    from pylattica.core.neighborhood_builders import (AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder,
                                                      MotifNeighborhoodBuilder, SiteClassNeighborhoodBuilder,
                                                      StochasticNeighborhoodBuilder)

    w = Watch()
    how = case["form"]
    lat = case["lat"]
    per = G.flags(lat)
    dim = len(per)
    flags = w(tuple(per) if how != "list" else list(per))
    vecs = w(np.array(lat["vecs"]) if how == "array" else [form(v, how) for v in lat["vecs"]])
    L = w(Lattice(vecs, flags))
    num = w([int(k) for k in case["num"]])
    m = G.mat(lat)
    motif = {}
    kept = G.spread_sites(case["fracs"], lat["vecs"], [True] * dim)
    for k in kept:
        f = case["fracs"][k]
        v = [float(x) for x in f] if case["frac"] else [round(float(x), 3) for x in np.dot(f, m)]
        motif.setdefault(case["classes"][k], []).append(form(v, how))
    w(motif)
    if case["frac"]:  # fractions of vectors at three decimals need not be exact; only what is passed in matters here
        S = w(PeriodicStructure(L))
        for n, f in enumerate(case["fracs"]):
            if n in kept:
                S.add_site(case["classes"][n], w(form([round(float(x), 3) for x in np.dot(f, m)], how)))
        w.seen = [e for e in w.seen if e[0] is not S]
        w(S)
    else:
        S = w(PeriodicStructure.build_from(L, num, motif))
    w.after("building")
    state = SimulationState.from_struct(S)
    for i in S.site_ids:
        state.set_site_state(i, {"v": [i]})
    w(state)
    pts = [w(form([0.125 * (k + 1) * (-1) ** k for _ in range(dim)], how)) for k in range(3)]
    arr = [w(np.array([float(x) for x in p])) for p in pts]
    many = w(np.array([[float(x) for x in p] for p in pts]))
    offs = w([form([0.5 if k == a else 0.0 for k in range(dim)], how) for a in range(dim)])
    for call in case["calls"]:
        if call == "lattice":
            L.get_fractional_coords(many), L.get_cartesian_coords(many)
            for p in pts:
                L.get_fractional_coords(p), L.get_cartesian_coords(p), L.get_periodized_cartesian_coords(p)
            L.get_scaled_lattice(num)
            Lattice.from_dict(w(L.as_dict()))
        elif call == "build_from":
            PeriodicStructure.build_from(L, num, motif, frac_coords=case["frac"])
            if how != "array":
                PeriodicStructure.build_from(L, num, w([v for vs in motif.values() for v in vs]), frac_coords=case["frac"])
        elif call == "builder":
            b = StructureBuilder(L, motif)
            b.frac_coords = case["frac"]
            b.build(1)
            b.build(w(tuple(num)))
        elif call == "lookup":
            sim = Simulation(state, S)
            for p in pts:
                S.site_at(p), S.id_at(p), S.class_at(p), sim.state_at(p)
            for s in S.sites():
                sim.state_at(s[LOCATION])
        elif call == "distances":
            for p, q in zip(arr, arr[1:]):
                L.cartesian_periodic_distance(p, q), pbc_diff_cart(p, q, L), distance(p, q)
                pbc_diff_frac_vec(p, q, w(np.array(per, dtype=int)))
                periodize(p, tuple(per))
        elif call == "neighbours":
            d = DistanceNeighborhoodBuilder(case["cut"])
            mo = MotifNeighborhoodBuilder(offs)
            both = w([d, mo])
            per_class = w({c: d for c in motif})
            for b in (d, mo, AnnularNeighborhoodBuilder(0.1, case["cut"]), StochasticNeighborhoodBuilder(both),
                      SiteClassNeighborhoodBuilder(per_class)):
                nb = b.get(S)
                for i in S.site_ids[:3]:
                    nb.neighbors_of(i), nb.neighbors_of(i, include_weights=True)
        elif call == "dictionary":
            PeriodicStructure.from_dict(w(S.as_dict()))
            PeriodicStructure.from_dict(w(json.loads(json.dumps(S.as_dict()))))
            SimulationState.from_dict(w(json.loads(json.dumps(state.as_dict()))))
            Simulation.from_dict(w(json.loads(json.dumps(Simulation(state, S).as_dict()))))
            Simulation(state, S).as_dict()
        elif call == "state_from":
            SimulationState.from_struct(S)
            SimulationState(w(copy.deepcopy(state.as_dict()["state"]))).set_site_state(0, {"v": 1})
        elif call == "pymatgen":
            if dim == 3:
                from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter

                con = PymatgenStructureConverter()
                pl = w(con.to_pymatgen_lattice(L))
                con.to_pylattica_lattice(pl)
                X = PeriodicStructure(L)
                for s in S.sites()[:2]:
                    if all(per):
                        X.add_site("Na", s[LOCATION] / 2)
                w(X)
                if X.sites():
                    ps = w(con.to_pymatgen_structure(X))
                    con.to_pylattica_structure_builder(ps)
                    if all(per):
                        con.to_pylattica_structure_and_state(ps)
        elif call == "box":
            get_points_in_box(w([-1] * dim), num)
        else:
            for M in (EuclideanDistanceMap, ManhattanDistanceMap):
                dm = M(offs)
                dm.get_dist(offs[0])
        w.after(call)
    return len(set(case["calls"])) >= 3, sorted(set(case["calls"])) + [how]


# ------------------------------------------------------------------ grids, states and results


@st.composite
def strat_grids(draw):
    n = draw(st.integers(3, 5))
    ph = draw(st.lists(st.sampled_from(["a", "b", "c", "d", "e", "zz"]), min_size=2, max_size=4, unique=True))
    return {"size": n, "phases": ph, "seed": draw(st.integers(0, 10**6)), "form": draw(FORMS),
            "shown": draw(st.lists(st.integers(0, 4), max_size=4)),
            "amts": [1 + draw(st.integers(0, 4))] + draw(st.lists(st.integers(0, 5), min_size=len(ph), max_size=len(ph))),
            "cells": draw(st.lists(st.integers(0, len(ph) - 1), min_size=n * n, max_size=n * n)),
            "steps": draw(st.lists(st.lists(st.tuples(st.integers(0, n * n - 1), st.integers(0, len(ph) - 1)).map(list),
                                            max_size=4), max_size=4)),
            "calls": draw(st.lists(st.sampled_from(["coords", "noise", "random sites", "particles", "add particle", "phases",
                                                    "colours", "draw", "queries", "result", "reload", "run", "life",
                                                    "plots", "pictures"]), min_size=4, max_size=12))}


def check_grids(case):
    from pylattica.core import (AsynchronousRunner, BasicController, Simulation, SimulationResult, SimulationState,
                                StateAnalyzer, SynchronousRunner)
    from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer, PhaseSet
    from pylattica.models.game_of_life import GameOfLifeController
    from pylattica.models.growth import GrowthController
    from pylattica.structures.square_grid import DiscreteGridSetup, SimpleSquare2DStructureBuilder
    from pylattica.visualization import DiscreteCellArtist, ResultArtist, SquareGridArtist2D
    from pylattica.visualization.helpers import color_map

    random.seed(case["seed"])
    np.random.seed(case["seed"] % 2**32)
    w = Watch()
    ph = w(list(case["phases"]))
    amts = w({p: k for p, k in zip(ph[1:], case["amts"])})
    n = case["size"]
    S = w(SimpleSquare2DStructureBuilder().build(n))
    KEY = "DISCRETE_OCCUPANCY"
    s0 = SimulationState()
    for i, k in zip(sorted(S.site_ids), case["cells"]):
        s0.set_site_state(i, {KEY: ph[k], "more": [i, {"x": i}]})
    s0.set_general_state({"g": [1]})
    w(s0)
    ups = [w({i: {KEY: ph[k], "new": [k]} for i, k in u}) for u in case["steps"]]
    res = SimulationResult(s0)
    for u in ups:
        res.add_step(u)
    res.set_output(res.last_step)
    w(res)
    w.after("assembling a result")
    setup = DiscreteGridSetup(w(PhaseSet(ph)))
    coords = w({p: [form([k % n, (2 * k + j) % n], case["form"]) for k in range(2)] for j, p in enumerate(ph[1:])})
    colours = w({p: (10 * k, 20, 30) for k, p in enumerate(ph)})
    legend = w({p: colours[p] for k, p in enumerate(ph) if k in case["shown"]})
    for call in case["calls"]:
        if call == "coords":
            setup.setup_coords(n, ph[0], coords)
        elif call == "noise":
            setup.setup_noise(n, ph)
        elif call == "random sites":
            setup.setup_random_sites(n, 2, ph[0], amts, buffer=None)
        elif call == "particles":
            setup.setup_random_particles(n, 1.5, 2, ph[0], ph)
            setup.setup_particle(n, 2, ph[0], ph[1])
            setup.setup_interface(n, ph[0], ph[1])
        elif call == "add particle":
            setup.add_particle_to_state(S, s0.copy(), w(form([1.0, 1.5], case["form"])), 1.2, ph[1])
        elif call == "phases":
            PhaseSet(ph)
            GrowthController(w(PhaseSet(ph)), S, background_phase=ph[0])
        elif call == "colours":
            color_map(ph)
            art = DiscreteCellArtist.from_phase_list(ph)
            DiscreteCellArtist.from_discrete_state(s0).get_legend(s0)
            DiscreteCellArtist.from_discrete_result(res).get_legend(s0)
            for c in s0.all_site_states():
                art.get_color_from_cell_state(c)
        elif call in ("draw", "pictures"):
            kw = {"legend": legend} if call == "pictures" else {}
            art = SquareGridArtist2D(S, DiscreteCellArtist(colours, **kw))
            art.get_img(s0, cell_size=2)
            art.get_img(res.last_step, cell_size=3, label="x")
        elif call == "queries":
            pairs = w({KEY: ph[0], "more": [0, {"x": 0}]})
            crits = w([lambda s: s[KEY] == ph[0]])
            for an in (StateAnalyzer(), StateAnalyzer(S)):
                an.get_sites(s0, state_criteria=crits), an.get_site_count(s0, state_criteria=crits)
                an.get_sites_where_equal(s0, pairs), an.get_site_count_where_equal(s0, pairs)
            an.get_sites(s0, site_class="A", state_criteria=crits)
            an.get_site_count(s0, site_class="A", state_criteria=crits)
            an = DiscreteStepAnalyzer()
            an.phases_present(s0), an.phase_count(s0), an.cell_count(s0, ph[0]), an.cell_fraction(s0, ph[0])
        elif call == "result":
            res.load_steps(2)
            for st_ in res.steps():
                st_.set_site_state(0, {KEY: "changed"})
            res.get_step(0).batch_update({1: {KEY: "changed"}})
            res.first_step.set_general_state({"g": 2})
        elif call == "reload":
            SimulationResult.from_dict(w(json.loads(json.dumps(res.as_dict(), default=lambda o: o.as_dict()))))
            SimulationState.from_dict(w(json.loads(json.dumps(s0.as_dict()))))
            d = tempfile.mkdtemp(prefix="pbt-args-")
            p = os.path.join(d, "x.json")
            try:
                res.to_file(p)
                SimulationResult.from_file(p)
                Simulation(s0, S).to_file(p)
                Simulation.from_file(p)
            finally:
                if os.path.exists(p):
                    os.remove(p)
                os.rmdir(d)
        elif call == "run":
            class Rule(BasicController):
                def get_state_update(self, site_id, prev_state):
                    return w({site_id: {KEY: ph[0]}})

            SynchronousRunner().run(s0, Rule(), 2)
            AsynchronousRunner().run(s0, Rule(), 3)
            SynchronousRunner().run(s0, GrowthController(PhaseSet(ph), S, background_phase=ph[0]), 2)
        elif call == "life":
            life = SimulationState()
            for i in S.site_ids:
                life.set_site_state(i, {KEY: "alive" if case["cells"][i] else "dead"})
            SynchronousRunner().run(w(life), GameOfLifeController(S), 2)
        else:
            an = DiscreteResultAnalyzer(res)
            an.all_phases(), an.final_phase_fractions(), an.phase_fraction_at(0, ph[0]), an.plot_phase_fractions()
            ResultArtist(SquareGridArtist2D(S, DiscreteCellArtist(colours)), res)
        w.after(call)
    return len(set(case["calls"])) >= 3, sorted(set(case["calls"])) + [case["form"]]


# ------------------------------------------------------------------ updates

@st.composite
def strat_updates(draw):
    c = draw(st.one_of(rules.sync_case(max_steps=8), rules.sync_case(max_steps=8), rules.async_case(max_steps=14)))
    c["reuse"] = True
    if c["mode"] == "async" and c["provider"] != "default":
        c["shared"] = True
    return c


def check_updates(case):
    """The update and list objects of a controller stay as it returned them."""
    from pylattica.core import AsynchronousRunner, SimulationResult, SynchronousRunner

    s0 = rules.build_state(case)
    w = Watch()
    w(s0)
    if case["mode"] == "sync":
        ctl = rules.SyncRule(case)
        res = SynchronousRunner().run(s0, ctl, case["steps"])
    else:
        if case["provider"] == "default":
            random.seed(case["seed"])
        ctl = rules.AsyncRule(case)
        try:
            res = AsynchronousRunner().run(s0, ctl, case["steps"])
        except RuntimeError:  # no site at the start
            return False, ["no site"]
    w.after("run")
    ctl.assert_kept()
    for key, r in getattr(ctl, "lists", {}).items():
        assert tuple(map(int, r)) == key, ("a list of sites of the controller's was changed", key, r)
    hist = [rules.snapshot(s) for s in res.steps()]
    res.load_steps(2)
    for k in (0, len(res) // 2, len(res) - 1):
        st_ = res.get_step(k)
        assert rules.snapshot(st_) == hist[k]
        for i in st_.site_ids():
            st_.set_site_state(i, {"v": -1, "mine": [0]})
        st_.set_general_state({"t": -1})
    assert [rules.snapshot(s) for s in SimulationResult.from_dict(json.loads(json.dumps(res.as_dict(), default=lambda o: o.as_dict()))).steps()] == hist
    ctl.assert_kept()
    w.after("reading the result")
    return len(ctl.handed_out) < len(case["ids"]) * case["steps"], [case["mode"]] + sorted(set(case["forms"]))


SUBS = [Sub("updates", strat_updates, check_updates, quick=300),
        Sub("structures", strat_structs, check_structs, quick=250),
        Sub("grids", strat_grids, check_grids, quick=200)]
