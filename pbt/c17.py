"""C17: Life-like automata."""
from hypothesis import strategies as st

from .c16 import build_grid, lattice_axes
from .harness import Sub

RULE = ("case = rule string or named variant x rectangular grid x pattern x steps, compared with an independent "
        "interpreter on coordinates; non-trivial = some cell changes and some cell is alive after a step")
ASSUMPTIONS = ["grids have at least three cells per axis (below that a Moore neighbour is reached twice)"]

NAMED = {"Life": ([3], [2, 3]), "Seeds": ([2], []), "Anneal": ([4, 6, 7, 8], [3, 5, 6, 7, 8]),
         "Diamoeba": ([3, 5, 6, 7, 8], [5, 6, 7, 8]), "Maze": ([3], [1, 2, 3, 4, 5])}


@st.composite
def strat(draw):
    size = draw(st.one_of(st.integers(3, 8), st.lists(st.integers(3, 9), min_size=2, max_size=2),
                          st.sampled_from([[3, 20], [13, 4], 10, 12, [11, 10], 21, [33, 3], 17])))
    how = draw(st.sampled_from(["string", "string", "string", "named", "default", "subclass"]))
    digits = st.lists(st.integers(0, 8), max_size=9, unique=True)
    born, surv = draw(digits), draw(digits)
    name = draw(st.sampled_from(sorted(NAMED)))
    n = 81 if size in range(9) or max(size if isinstance(size, list) else [size]) <= 9 else 61
    dens = draw(st.sampled_from([2, 3, 5, 8]))
    cells = draw(st.lists(st.integers(0, 9), min_size=n, max_size=n))
    return {"order": draw(st.sampled_from([None, None, None, 1, 2, 3])), "size": size, "how": how, "born": born, "surv": surv, "name": name, "dim": 2,
            "cells": [c < dens for c in cells], "steps": draw(st.integers(1, 6)),
            "reused": draw(st.booleans())}


def check(case):
    from pylattica.core import SimulationState, SynchronousRunner
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.models import game_of_life as gol

    S, at, _ = build_grid(case)
    ext = lattice_axes(S, 2)
    string = "B%s/S%s" % ("".join(map(str, case["born"])), "".join(map(str, case["surv"])))
    born, surv = set(case["born"]), set(case["surv"])
    how = case["how"]
    if how == "named":
        string = getattr(gol, case["name"])
        born, surv = map(set, NAMED[case["name"]])
    if how == "default":
        ctl = gol.GameOfLifeController(S)
        born, surv = map(set, NAMED["Life"])
    elif how == "subclass":
        ctl = type("Sub", (gol.GameOfLifeController,), {"variant": string})(S)
    else:
        ctl = gol.GameOfLifeController(S, variant=string)
    alive = {p: c for p, c in zip(sorted(at), case["cells"] * 9)}
    s0 = SimulationState()
    for p, i in at.items():
        s0.set_site_state(i, {OCC: "alive" if alive[p] else "dead"})
    if case["reused"]:
        SynchronousRunner().run(s0.copy(), ctl, 1)
    res = SynchronousRunner().run(s0, ctl, case["steps"])
    changed = some = False
    for k in range(case["steps"] + 1):
        st_k = res.get_step(k)
        for p, i in at.items():
            got = st_k.get_site_state(i)[OCC]
            want = "alive" if alive[p] else "dead"
            assert got == want, ("step", k, "cell", p, "is", got, "expected", want, "rule", sorted(born), sorted(surv))
        nxt = {}
        for (x, y), a in alive.items():
            n = sum(alive[((x + dx) % ext[0], (y + dy) % ext[1])] for dx in (-1, 0, 1) for dy in (-1, 0, 1)) - a
            nxt[(x, y)] = n in (surv if a else born)
        if k < case["steps"]:
            changed = changed or nxt != alive
            some = some or any(nxt.values())
        alive = nxt
    return changed and some, [how]


SUBS = [Sub("automata", strat, check, quick=400, shards=6)]
