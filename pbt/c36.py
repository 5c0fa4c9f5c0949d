"""C36: what one object was used for does not change what another answers."""
import hashlib
import json
import os
import random
import signal
import tempfile

import numpy as np
from hypothesis import strategies as st

from . import gens as G
from . import structs as T
from .harness import Sub

RULE = ("case = a session (a structure or grid, its tools, and a list of calls on them) x a second session that differs in "
        "one detail or two x an order in which their calls alternate x the tools (builders, runners, setups, artists, "
        "analyzers, lattices) that both use; each session runs alone in a process of its own, and both together in a third; "
        "non-trivial = the two sessions answer differently somewhere")
ASSUMPTIONS = ["a session seeds the random generators before each of its calls",
               "the sessions share no structure, state or result that one of them changes"]

TOOLS = ["lattice", "sbuilder", "builder", "runner", "setup", "artist", "analyzer", "converter", "structure"]


# ------------------------------------------------------------------ what a session may do

class Session:
    def __init__(self, p, shared, kinds, scratch):
        self.p, self.own, self.shared, self.kinds, self.scratch = p, {}, shared, kinds, scratch

    def tool(self, kind, key, make):
        """A tool for these parameters: this session's own, or one that both use."""
        kept = self.shared if kind in self.kinds else self.own
        key = json.dumps([kind, key], sort_keys=True)
        if key not in kept:
            kept[key] = make()
        return kept[key]

    def builder(self, key, make):
        return self.tool("builder", key, make)

    def lists(self, b, kw={}):
        nb = b.get(self.S, **kw)
        rnd(self.p)
        return [[int(i), [[int(j), round(float(w), 6)] for j, w in nb.neighbors_of(i, include_weights=True)],
                 ] for i in self.S.site_ids]


def rnd(p):
    random.seed(p["seed"])
    np.random.seed(p["seed"])


def nums(x):
    return [round(float(v), 9) for v in np.ravel(x)]


def plain(state):
    return json.loads(json.dumps([sorted([[int(i), state.get_site_state(i)] for i in state.site_ids()], key=lambda e: e[0]),
                                  state.get_general_state()], sort_keys=True, default=repr))


def site(s):
    return None if s is None else [s["_site_id"], s["_site_class"], nums(s["_location"])]


class Tiled(Session):
    def start(self):
        from pylattica.core import StructureBuilder

        p = self.p
        lat = p["lat"]
        m = G.mat(lat)
        kept = G.spread_sites(p["fracs"], lat["vecs"], [True] * len(m))
        self.motif = {}
        for k in kept:
            self.motif.setdefault(p["classes"][k], []).append(
                tuple(p["fracs"][k]) if p["frac"] else tuple(round(float(x), 3) for x in np.dot(p["fracs"][k], m)))
        self.L = self.tool("lattice", lat, lambda: G.make_lattice(lat))

        def make():
            b = StructureBuilder(self.L, self.motif)
            b.frac_coords = p["frac"]
            return b

        b = self.tool("sbuilder", [lat, p["frac"], sorted(self.motif.items())], make)
        num = tuple(p["num"])
        self.S = b.build(num) if "add" in p["calls"] else \
            self.tool("structure", [lat, p["frac"], sorted(self.motif.items()), num], lambda: b.build(num))
        ids = self.S.site_ids
        self.pts = [tuple(round(float(x), 3) for x in np.dot(f, m)) for f in p["points"]]
        self.pts += [tuple(float(x) for x in self.S.site_location(i)) for i in ids[:3] + ids[-2:]]
        a = self.S.site_location(ids[0]) if ids else np.zeros(len(m))
        offs = [tuple(round(float(x), 3) for x in self.S.site_location(i) - a) for i in ids[1:6]]
        self.offs = [offs[k % len(offs)] for k in p["offs"]] if offs else []
        return [site(s) for s in self.S.sites()]

    def call(self, name):
        from pylattica.core import PeriodicStructure, Simulation, SimulationState, StateAnalyzer
        from pylattica.core import neighborhood_builders as B
        from pylattica.core.coordinate_utils import get_points_in_box
        from pylattica.core.distance_map import EuclideanDistanceMap, ManhattanDistanceMap

        p, S, L = self.p, self.S, self.L
        dist = self.builder(["distance", p["cut"]], lambda: B.DistanceNeighborhoodBuilder(p["cut"]))
        moti = self.builder(["motif", self.offs], lambda: B.MotifNeighborhoodBuilder(self.offs))
        kw = {} if p["only"] is None else {"site_class": p["only"]}
        if name == "distance":
            return self.lists(dist, kw)
        if name == "annular":
            return self.lists(self.builder(["annular", p["inner"], p["cut"]],
                                           lambda: B.AnnularNeighborhoodBuilder(p["inner"], p["cut"])), kw)
        if name == "motif":
            return self.lists(moti, kw)
        if name == "classes":
            return self.lists(self.builder(["classes", p["cut"], self.offs, p["classes"]],
                                           lambda: B.SiteClassNeighborhoodBuilder(dict(zip(p["classes"], [dist, moti, dist])))))
        if name == "stochastic":
            return self.lists(self.builder(["stochastic", p["cut"], self.offs],
                                           lambda: B.StochasticNeighborhoodBuilder([dist, moti])), kw)
        if name == "lookup":
            return [[site(S.site_at(q)), S.id_at(q), S.class_at(q)] for q in self.pts]
        if name == "pairs":
            return [nums(S.lattice.cartesian_periodic_distance(np.array(q), np.array(r))) +
                    nums(L.cartesian_periodic_distance(np.array(q), np.array(r))) for q in self.pts for r in self.pts]
        if name == "convert":
            return [nums(f(q)) for q in self.pts for X in (L, S.lattice) for f in
                    (X.get_fractional_coords, X.get_cartesian_coords, X.get_periodized_cartesian_coords)] + \
                [nums(L.get_scaled_lattice(p["num"]).vecs), nums(L.inv_matrix), [list(map(bool, L.periodic)), L.is_orthogonal]]
        if name == "sites":
            return [[[site(s) for s in S.sites(c)] for c in [None, *T.CLASSES]], sorted(S.all_site_classes())]
        if name == "add":
            out = []
            for q in self.pts:
                try:
                    out.append(S.add_site("new", q))
                except AssertionError:
                    out.append("occupied")
            return out + [len(S.site_ids)]
        if name == "dict":
            C = PeriodicStructure.from_dict(json.loads(json.dumps(S.as_dict())))
            return [[site(s) for s in C.sites()], [C.id_at(q) for q in self.pts], nums(C.lattice.vecs)]
        if name == "query":
            s = SimulationState.from_struct(S)
            for i in S.site_ids:
                s.set_site_state(i, {"v": (i + p["seed"]) % 3})
            an = self.tool("analyzer", ["of", self.p["lat"], p["num"], p["fracs"], p["frac"], p["classes"]], lambda: StateAnalyzer(S)) \
                if "add" not in p["calls"] else StateAnalyzer(S)
            sim = Simulation(s, S)
            return [[sorted(an.get_sites_where_equal(s, {"v": 1}, site_class=c)) for c in [None, *T.CLASSES]],
                    [sim.state_at(q) for q in self.pts]]
        if name == "maps":
            return [[nums(M(self.offs).get_dist(o)) for o in self.offs] for M in (EuclideanDistanceMap, ManhattanDistanceMap)]
        if name == "box":
            return [list(map(int, q)) for q in get_points_in_box([-1] * S.dim, p["num"])]
        if S.dim != 3:  # "pymatgen"
            return None
        from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter

        con = self.tool("converter", 0, PymatgenStructureConverter)
        P = con.to_pymatgen_lattice(S.lattice)
        back = con.to_pylattica_lattice(P)
        return [nums(P.matrix), list(P.pbc), nums(back.vecs), list(map(bool, back.periodic))]


class Grid(Session):
    def start(self):
        from pylattica.core import Simulation, SimulationResult, SimulationState
        from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder

        p = self.p
        self.dim = len(p["size"])
        b = self.tool("sbuilder", self.dim, SimpleSquare2DStructureBuilder if self.dim == 2 else SimpleSquare3DStructureBuilder)
        self.S = self.tool("structure", p["size"], lambda: b.build(tuple(p["size"])))
        ids = self.S.site_ids
        ph = p["phases"]
        self.cells = [ph[p["cells"][(k + k * k // 7) % len(p["cells"])] % len(ph)] for k in range(len(ids))]
        self.state = SimulationState()
        for i, c in zip(ids, self.cells):
            self.state.set_site_state(i, {"DISCRETE_OCCUPANCY": c})
        self.state.set_general_state({"t": p["seed"] % 5})
        self.sim = Simulation(self.state, self.S)
        self.res = SimulationResult(self.state.copy())
        self.n = 0
        return [site(s) for s in self.S.sites()]

    def runner(self):
        from pylattica.core import SynchronousRunner

        return self.tool("runner", self.p["workers"], SynchronousRunner if not self.p["workers"] else
                         lambda: SynchronousRunner(parallel=True, workers=self.p["workers"]))

    def hexes(self, H):
        from pylattica.core import SimulationState

        s = SimulationState()
        for i in H.site_ids:
            s.set_site_state(i, {"DISCRETE_OCCUPANCY": self.cells[i % len(self.cells)]})
        return s

    def call(self, name):
        from pylattica.core.neighborhood_builders import DistanceNeighborhoodBuilder
        from pylattica.core import AsynchronousRunner, BasicController, Simulation, SimulationResult, StateAnalyzer
        from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer, PhaseSet
        from pylattica.models.game_of_life import GameOfLifeController
        from pylattica.models.growth import GrowthController
        from pylattica.structures.honeycomb import HoneycombTilingBuilder
        from pylattica.structures.square_grid import DiscreteGridSetup
        from pylattica.structures.square_grid.growth_setup import GrowthSetup
        from pylattica.structures.square_grid import neighborhoods as N
        from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D
        from pylattica.visualization.helpers import color_map

        p, S, d, ph, KEY = self.p, self.S, self.dim, self.p["phases"], "DISCRETE_OCCUPANCY"
        ids = list(S.site_ids)
        sizes = p["size"]
        n = min(sizes)
        if name in ("moore", "growth"):
            nb = self.builder(["moore", p["reach"], d], lambda: N.MooreNbHoodBuilder(p["reach"], dim=d))
            if name == "moore":
                return self.lists(nb)
            ctl = GrowthController(PhaseSet(ph), S, background_phase=ph[0], nb_builder=nb)
            return [plain(s) for s in self.runner().run(self.state, ctl, p["steps"]).steps()]
        if name == "neumann":
            return self.lists(self.builder(["vn", p["reach"], d], lambda: (N.VonNeumannNbHood2DBuilder if d == 2 else
                                                                           N.VonNeumannNbHood3DBuilder)(p["reach"])))
        if name == "circle":
            return self.lists(self.builder(["circle", p["radius"]], lambda: N.CircularNeighborhoodBuilder(p["radius"])))
        if name == "hexagons":
            return self.lists(self.builder(["hex", d], N.PseudoHexagonalNeighborhoodBuilder2D if d == 2 else
                                           N.PseudoHexagonalNeighborhoodBuilder3D))
        if name == "life":
            if d == 3:
                return None
            s0 = self.state.copy()
            for i, c in zip(ids, self.cells):
                s0.set_site_state(i, {KEY: "dead" if c == ph[0] else "alive"})
            return [plain(s) for s in self.runner().run(s0, GameOfLifeController(S, p["variant"]), p["steps"]).steps()]
        if name == "walk":
            class Walk(BasicController):
                def get_state_update(self, site_id, prev_state):
                    return {site_id: {"seen": prev_state.get_site_state(site_id).get("seen", 0) + 1}}

            r = self.tool("runner", "async", AsynchronousRunner).run(self.state, Walk(), 6)
            return [plain(s) for s in r.steps()]
        if name in ("draw", "legend"):
            art = self.tool("artist", p["colours"][:len(ph)] + ph, lambda: DiscreteCellArtist(
                {q: tuple(c) for q, c in zip(ph, p["colours"])}))
            if name == "legend":
                given = DiscreteCellArtist.from_phase_list(ph)
                colours, legend = color_map(ph), art.get_legend(self.state)
                out = [sorted([k, list(v)] for k, v in m.items()) for m in (legend, colours, given.color_map)]
                # all three are this session's own, to change as it likes
                for m in (legend, colours, given.color_map):
                    m[ph[0]], m["mark"] = (9, 8, 7), (1, 2, 3)
                return out
            if d == 3:
                return None
            picture = self.tool("artist", ["of", sizes, p["colours"], ph], lambda: SquareGridArtist2D(S, art))
            im = picture.get_img(self.state, cell_size=p["cell_size"])
            return [list(im.size), hashlib.sha1(im.tobytes()).hexdigest()]
        if name == "query":
            an = self.tool("analyzer", ["of", sizes], lambda: StateAnalyzer(S))
            return [[sorted(an.get_sites_where_equal(self.state, {KEY: q})), an.get_site_count_where_equal(self.state, {KEY: q}),
                     sorted(an.get_sites(self.state, state_criteria=[lambda s: s[KEY] != q]))] for q in ph]
        if name == "phases":
            an = self.tool("analyzer", 0, DiscreteStepAnalyzer)
            return [sorted(an.phases_present(self.state)), an.phase_count(self.state),
                    [[an.cell_count(self.state, q), an.cell_fraction(self.state, q)] for q in ph]]
        if name.startswith("setup"):
            su = self.tool("setup", [sorted(ph), d], lambda: DiscreteGridSetup(PhaseSet(ph), dim=d))
            a, b = ph[0], ph[-1]
            sim = {"setup noise": lambda: su.setup_noise(n, ph), "setup interface": lambda: su.setup_interface(n, a, b),
                   "setup particle": lambda: su.setup_particle(n, p["radius"], a, b),
                   "setup particles": lambda: su.setup_random_particles(n, p["radius"], 2, a, ph[1:]),
                   "setup sites": lambda: su.setup_random_sites(n, 2, a, {q: 1 for q in ph[1:]}, buffer=p["reach"] - 1),
                   "setup growth": lambda: GrowthSetup(PhaseSet(ph), dim=d).grow(
                       n, 2, a, {q: 1 for q in ph[1:]},
                       self.builder(["moore", p["reach"], d], lambda: N.MooreNbHoodBuilder(p["reach"], dim=d)), buffer=p["reach"] - 1),
                   "setup coords": lambda: su.setup_coords(n, a, {q: [(k % n,) * d] for k, q in enumerate(ph[1:])}),
                   }[name]()
            s = su.add_particle_to_state(S, self.state.copy(), (1,) * d, p["radius"], b)
            X = su.build_structure(n)
            filled = su.setup_solid_phase(X, a)
            out = [plain(sim.state), len(sim.structure.site_ids), plain(s), len(X.site_ids), plain(filled)]
            # what was built is this session's own, to change as it likes
            X.add_site("mark", (0.5,) * d)
            filled.set_site_state(0, {"DISCRETE_OCCUPANCY": "mark"})
            sim.state.set_site_state(1, {"DISCRETE_OCCUPANCY": "mark"})
            sim.structure.add_site("mark", (0.5,) * d)
            return out + [len(X.site_ids), plain(sim.state)]
        if name == "honeycomb":
            H = self.tool("sbuilder", "honeycomb", HoneycombTilingBuilder).build(p["reach"] + 1)
            r = self.runner().run(self.hexes(H), GrowthController(PhaseSet(ph), H, background_phase=ph[0], nb_builder=self.builder(
                ["distance", p["radius"]], lambda: DistanceNeighborhoodBuilder(p["radius"]))), p["steps"])
            return [[site(s) for s in H.sites()], plain(r.last_step)]
        if name == "state":
            self.n += 1
            self.state.set_site_state(ids[self.n % len(ids)], {"more": [self.n]})
            self.state.batch_update({"GENERAL": {"n": self.n}, "SITES": {ids[0]: {"x": self.n}}})
            return plain(self.state)
        if name == "at":
            return [self.sim.state_at(q) for q in ((0.0,) * d, (1.0,) * d, (-1,) * d, (0.5,) * d, tuple(sizes))]
        if name == "add step":
            self.n += 1
            self.res.add_step({ids[(self.n * 3) % len(ids)]: {KEY: ph[self.n % len(ph)], "k": self.n}})
            return len(self.res)
        if name == "load":
            self.res.load_steps(p["reach"])
            return len(self.res)
        if name == "steps":
            return [plain(s) for s in self.res.steps()] + [plain(self.res.get_step(k)) for k in range(len(self.res))] + \
                [plain(self.res.last_step), plain(self.res.first_step)]
        if name == "analysis":
            an = DiscreteResultAnalyzer(self.res)
            fig = an.plot_phase_fractions()
            return [sorted(an.all_phases()), sorted(an.final_phase_fractions().items()),
                    sorted([t.name, nums(t.x), nums(t.y)] for t in fig.data)]
        path = os.path.join(self.scratch, "s%d.json" % id(self))  # "files"
        self.sim.to_file(path)
        back = Simulation.from_file(path)
        self.res.to_file(path)
        res = SimulationResult.from_file(path)
        return [plain(back.state), [site(s) for s in back.structure.sites()], [plain(s) for s in res.steps()]]


TILED = ["distance", "annular", "motif", "classes", "stochastic", "lookup", "pairs", "convert", "sites", "dict", "query", "maps",
         "box", "pymatgen", "distance", "motif", "lookup"]
GRID = ["moore", "growth", "neumann", "circle", "hexagons", "life", "walk", "draw", "legend", "query", "phases", "setup noise",
        "setup interface", "setup particle", "setup particles", "setup sites", "setup coords", "setup growth", "state", "at", "add step",
        "load", "steps", "analysis", "files", "honeycomb", "life", "draw", "add step"]


# half of the grid sessions stay with one part of the package
PARTS = [["growth", "growth", "moore", "honeycomb", "setup growth"], ["moore", "neumann", "circle", "hexagons"], ["life", "walk", "growth"],
         ["draw", "legend", "phases", "query"], ["setup noise", "setup interface", "setup particle", "setup particles"],
         ["setup sites", "setup coords", "setup growth"], ["state", "at", "files", "query"],
         ["add step", "load", "steps", "analysis", "files"]]
# and what matters there
MATTERS = [["size", "size", "cells", "phases", "reach", "steps"], ["size", "size", "reach", "radius"], ["variant", "variant", "cells", "size", "steps"],
           ["colours", "phases", "cells", "size"], ["size", "phases", "radius", "seed"], ["size", "phases", "reach", "seed"],
           ["size", "cells", "phases"], ["cells", "phases", "size", "reach"]]
VARIANTS = ["B3/S23", "B36/S23", "B3/S0145", "B36/S8", "B2/S", "B2/S23", "B1/S012345678"]

# ------------------------------------------------------------------ sessions

def session(kind, p, shared, kinds, scratch):
    """Yields what the calls answer, one after the other."""
    s = (Tiled if kind == "tiled" else Grid)(p, shared, kinds, scratch)
    rnd(p)
    yield json.dumps(s.start())
    for c in p["calls"]:
        rnd(p)
        try:
            out = s.call(c)
        except Exception as e:  # noqa: BLE001 - compared
            out = ["raised", type(e).__name__, str(e)[:200]]
        yield json.dumps([c, out])


def apart(fn):
    """fn() in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            text = f.read()
        done = True
    finally:
        if "done" not in locals():
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
    assert status == 0, "a session ended with an error"
    return json.loads(text)


def check(kind):
    def run(case):
        # imported here once: the sessions' processes start with the modules loaded, and with nothing used
        import pylattica.atomic.pymatgen_struct_converter  # noqa: F401
        import pylattica.models.game_of_life  # noqa: F401
        import pylattica.models.growth  # noqa: F401
        import pylattica.structures.honeycomb  # noqa: F401
        import pylattica.visualization  # noqa: F401

        with tempfile.TemporaryDirectory(prefix="pbt-sessions-") as scratch:
            def alone(p):
                return lambda: list(session(kind, p, {}, [], scratch))

            def together():
                shared = {}
                gens = [session(kind, p, shared, case["shared"], scratch) for p in (case["a"], case["b"])]
                out = [[], []]
                for k in case["order"] + [0, 1] * (len(case["a"]["calls"]) + len(case["b"]["calls"]) + 2):
                    x = next(gens[k], None)
                    if x is not None:
                        out[k].append(x)
                return out

            a, b, both = apart(alone(case["a"])), apart(alone(case["b"])), apart(together)
        for k, want in enumerate((a, b)):
            assert len(both[k]) == len(want)
            for c, (x, y) in enumerate(zip(want, both[k])):
                assert x == y, ("session", k, "call", c, "answers", x[:400], "alone but", y[:400], "beside the other")
        raised = sum('"raised"' in x[:60] for x in a + b)
        return a != b and len(a) > 3, sorted(set(case["shared"])) + sorted(set(case["a"]["calls"])) + (["raised"] if raised else [])
    return run


@st.composite
def strat_tiled(draw):
    a = draw(T.struct_case(exact=True))
    dim = len(a["num"])
    a["num"] = [min(k, 3) for k in a["num"]] if dim > 1 else a["num"]
    pool = TILED + (["add", "add"] if draw(st.integers(0, 3)) == 0 else [])
    a.update(calls=draw(st.lists(st.sampled_from(pool), min_size=3, max_size=7)), cut=draw(st.sampled_from([1.05, 0.8, 1.45, 2.1])),
             inner=draw(st.sampled_from([0.3, 0.0, 0.9])), only=draw(st.sampled_from([None, None, None, *T.CLASSES])),
             offs=draw(st.lists(st.integers(0, 4), min_size=1, max_size=4, unique=True)), frac=draw(st.booleans()),
             points=draw(st.lists(st.lists(st.sampled_from([0.0, 0.25, 0.5, -0.75, 1.0, 1.5, 2.25]), min_size=dim, max_size=dim),
                                  min_size=1, max_size=3)), seed=draw(st.integers(0, 999)))
    b = json.loads(json.dumps(a))
    for what in draw(st.lists(st.sampled_from(["periodic", "axis", "vecs", "longer", "num", "num", "fracs", "classes", "cut",
                                               "only", "frac", "calls"]), min_size=2, max_size=4)):
        k = draw(st.integers(0, dim - 1))
        if what == "periodic":
            b["lat"]["periodic"] = draw(st.sampled_from([False, True, [x == k for x in range(dim)]]))
        elif what == "axis":
            b["lat"]["vecs"][0], b["lat"]["vecs"][k] = b["lat"]["vecs"][k], b["lat"]["vecs"][0]
        elif what == "vecs":
            b["lat"]["vecs"][k] = [-x if x else x for x in b["lat"]["vecs"][k]]
        elif what == "longer":
            b["lat"]["vecs"][k] = [x * 2 for x in b["lat"]["vecs"][k]]
        elif what == "num":
            b["num"] = draw(st.sampled_from([b["num"][::-1], [b["num"][k]] * dim, [x % 3 + 1 for x in b["num"]]]))
        elif what == "fracs":
            b["fracs"] = [[draw(st.sampled_from([x, 0.5, 0.25, 0.1])) for x in f] for f in b["fracs"]]
        elif what == "classes":
            b["classes"] = [draw(st.sampled_from(T.CLASSES)) for _ in b["classes"]]
        elif what == "cut":
            b["cut"] = draw(st.sampled_from([1.05, 0.8, 1.45, 2.1]))
        elif what == "only":
            b["only"] = draw(st.sampled_from([None, *T.CLASSES]))
        elif what == "frac":
            b["frac"] = not b["frac"]
        elif "add" not in a["calls"]:
            b["calls"] = draw(st.permutations(b["calls"]))
    return {"a": a, "b": b, **draw(mixture())}


@st.composite
def mixture(draw):
    return {"order": draw(st.one_of(st.lists(st.integers(0, 1), max_size=12), st.sampled_from([[0, 1] * 6, [1] * 8]))),
            "shared": sorted(set(draw(st.one_of(st.just(TOOLS), st.just([]), st.lists(st.sampled_from(TOOLS), max_size=5)))))}


@st.composite
def strat_grid(draw):
    dim = draw(st.sampled_from([2, 2, 2, 3]))
    size = draw(st.lists(st.integers(3, 5 if dim == 2 else 3), min_size=dim, max_size=dim))
    ph = draw(st.lists(st.sampled_from(["a", "b", "c", "alive", "dead", "VACANT", "A"]), min_size=2, max_size=4, unique=True))
    part = draw(st.sampled_from([None] * 5 + list(range(len(PARTS)))))
    colour = st.lists(st.sampled_from([0, 1, 10, 200, 255]), min_size=3, max_size=3)
    a = {"size": size, "phases": ph, "cells": draw(st.one_of(st.lists(st.integers(0, 3), min_size=4, max_size=9),
                                                                 st.lists(st.sampled_from([0] * 6 + [1, 2, 3]), min_size=7, max_size=17))),
         "colours": draw(st.lists(colour, min_size=4, max_size=4)), "reach": draw(st.sampled_from([1, 1, 2])),
         "radius": draw(st.sampled_from([1.1, 1.5, 2.1])), "variant": draw(st.sampled_from(VARIANTS)),
         "steps": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 999)), "cell_size": draw(st.sampled_from([2, 3, 5])),
         "workers": draw(st.sampled_from([0] * 9 + [2])),
         "calls": draw(st.lists(st.sampled_from(GRID if part is None else PARTS[part]), min_size=3, max_size=8))}
    b = json.loads(json.dumps(a))
    every = ["size", "size", "phases", "cells", "cells", "colours", "reach", "radius", "variant", "seed", "calls", "steps"]
    for what in draw(st.lists(st.sampled_from(every if part is None else MATTERS[part]), min_size=1, max_size=3 if part is not None else 4)):
        if what == "size":
            b["size"] = draw(st.sampled_from([size[::-1], size[::-1], size[1:] + size[:1], [size[0]] * dim, [s % 3 + 3 for s in size] if dim == 2 else size[::-1]]))
        elif what == "phases":
            b["phases"] = draw(st.permutations(b["phases"])) if draw(st.booleans()) else b["phases"][:-1] + ["z"]
        elif what == "cells":
            b["cells"] = [(c + 1) % 4 for c in b["cells"]] if draw(st.booleans()) else b["cells"][::-1]
        elif what == "colours":
            b["colours"] = draw(st.permutations(b["colours"]))
        elif what == "calls":
            b["calls"] = draw(st.permutations(b["calls"]))
        else:
            b[what] = draw({"reach": st.sampled_from([1, 2]), "radius": st.sampled_from([1.1, 1.5, 2.1]), "steps": st.integers(1, 3),
                            "variant": st.sampled_from(VARIANTS), "seed": st.integers(0, 999)}[what])
    return {"a": a, "b": b, **draw(mixture())}


check_tiled, check_grid = check("tiled"), check("grid")
SUBS = [Sub("structures", strat_tiled, check_tiled, quick=400, shards=4),
        Sub("grids", strat_grid, check_grid, quick=600, shards=4)]
