"""C24: colours and legends."""
from hypothesis import strategies as st

from .harness import Sub

RULE = ("case = phases (up to thirty) x how the artist is made (list, state, result, explicit map) x state key x "
        "explicit legend; non-trivial = at least three phases; long = more than twenty")
ASSUMPTIONS = ["phases are strings, or integers where no legend is drawn"]


@st.composite
def strat(draw):
    n = draw(st.sampled_from([1, 2, 3, 5, 8, 15, 22, 24, 26, 28, 29, 30, 30]))
    sites = draw(st.sampled_from([n, n, n + 3, max(1, n // 2)]))
    names = draw(st.sampled_from([["p%02d" % k for k in range(n)], ["p%02d" % k for k in range(n)],
                                  ["", "P00", "p00", "p 1", "p_1", "_p", "é"][:n] + ["p%02d" % k for k in range(2, n - 5)],
                                  [" ", "P00", "p00 ", "p00", " p00", "p00\n", "\tp"][:n] + ["p%02d" % k for k in range(2, n - 5)],
                                  list(range(n))]))
    return {"phases": draw(st.permutations(names)),
            "how": draw(st.sampled_from(["list", "tuple", "state", "result", "result_last", "map"])),
            "key": draw(st.sampled_from([None, None, "k", "mode"])),
            "cells": [draw(st.integers(0, n - 1)) if k >= n or draw(st.booleans()) else k for k in range(sites)],
            "legend": draw(st.sampled_from([None, None, None, {"x": [1, 2, 3]}, {}])),
            "steps": draw(st.lists(st.lists(st.integers(0, n - 1), min_size=2, max_size=2), max_size=6)),
            "others": draw(st.lists(st.lists(st.integers(0, n - 1), min_size=1, max_size=5), max_size=3)),
            "dup": draw(st.booleans())}


def check(case):
    from pylattica.core import SimulationResult, SimulationState
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.visualization import DiscreteCellArtist

    phases, how = case["phases"], case["how"]
    key = case["key"] or OCC
    # an artist of the phases found under the usual key may look at another one
    found = how in ("state", "result", "result_last")
    kw = {} if key == OCC else {"state_key": key}
    legend = None
    if case["legend"] is not None:
        legend = {k: tuple(v) for k, v in case["legend"].items()}
        kw["legend"] = legend
    state = SimulationState()
    occ = [phases[c] for c in case["cells"]]
    for i, p in enumerate(occ):
        state.set_site_state(i, {OCC: occ[-1 - i] if found else "other", key: p, "v": i})
    colors = {}
    if how in ("list", "tuple"):
        given = list(phases) + (phases[:2] if case["dup"] and len(phases) <= 28 else [])
        art = DiscreteCellArtist.from_phase_list(given if how == "list" else tuple(given), **kw)
        assigned = set(phases)
    elif how == "state":
        art = DiscreteCellArtist.from_discrete_state(state, **kw)
        assigned = set(occ)
    elif how in ("result", "result_last"):
        res = SimulationResult(state)
        assigned = set(occ)
        cur = list(occ)
        for i, c in case["steps"]:
            i = i % len(occ)
            cur[i] = phases[c]
            assigned.add(phases[c])
            u = {OCC: phases[c], key: phases[c], "v": -i} if i % 3 == 1 else {OCC: phases[c], key: phases[c]}
            res.add_step({"SITES": {i: u}, "GENERAL": {"t": c}} if i % 4 == 2 else {i: u})
        if how == "result_last":
            if len(assigned) < 30:
                late = 999 if isinstance(phases[0], int) else "appears_last"
                res.add_step({0: {OCC: late, key: late}})
                cur[0] = late
                assigned.add(late)
        art = DiscreteCellArtist.from_discrete_result(res, **kw)
        state, occ = res.last_step, cur
    else:
        colors = {p: (k, 255 - k, 7) for k, p in enumerate(phases[::2])}
        art = DiscreteCellArtist(dict(colors), **kw)
        assigned = set(colors)
    got = {}
    for p in sorted(assigned):
        c = art.get_color_from_cell_state({key: p, "v": 0, "_site_id": 3})
        again = art.get_color_from_cell_state({"z": 9, key: p})
        assert tuple(c) == tuple(again), ("colour of", p, c, again)
        assert len(c) == 3 and all(isinstance(x, int) and 0 <= x <= 255 for x in c), c
        got[p] = tuple(c)
    if how == "map":
        assert got == colors, (got, colors)
    else:
        back = {}
        for p, c in got.items():
            assert c != (0, 0, 0), ("no colour for", p)
            assert c not in back, ("phases", p, back[c], "share colour", c)
            back[c] = p
    assert tuple(art.get_color_from_cell_state({key: "unheard of"})) == (0, 0, 0)
    for s in state.all_site_states():
        c = tuple(art.get_color_from_cell_state(s))
        assert c == got.get(s[key], (0, 0, 0)), (s, c)
    scenes = []
    for cells in case["others"]:  # one artist, several states
        s = SimulationState()
        for i, c in enumerate(cells):
            s.set_site_state(i, {key: phases[c]})
        scenes.append((s, [phases[c] for c in cells]))
    for s, present in [*scenes, (state, occ), *scenes[:1]]:
        leg = art.get_legend(s)
        if legend is not None:
            assert leg == legend, (leg, legend)
        else:
            want = {str(p): got.get(p, (0, 0, 0)) for p in set(present)}
            assert {k: tuple(v) for k, v in leg.items()} == want, ("legend", leg, "expected", want)
    from pylattica.visualization.helpers import color_map

    direct = color_map(list(phases))
    assert set(direct) == set(phases), (direct, phases)
    assert len({tuple(c) for c in direct.values()}) == len(phases), ("colour map repeats a colour", direct)
    labels = [how]
    if len(assigned) > 20:
        labels.append("many")
    return len(assigned) >= 3, labels


SUBS = [Sub("artists", strat, check, quick=900)]
