"""C23: 2D rendering."""
import os

from hypothesis import strategies as st

from .c19 import cells_of, reordered
from .harness import Sub

RULE = ("case = square or oblong grid x cell size x state x artist (colour map, explicit legend, custom state key, custom "
        "artist class) x label, compared pixel by pixel; non-trivial = at least two colours and two cells")
ASSUMPTIONS = ["pixels covered by the optional label text may be white"]


@st.composite
def strat(draw):
    size = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 10, 13]))
    n = draw(st.sampled_from([1, 2, 3, 4, 6, 9, 13, 28]))
    cells = draw(st.lists(st.integers(0, n - 1), min_size=49, max_size=49))
    sizes = [1, 2, 3, 4, 5, 7]
    if size < 10:
        sizes += [None, 10, 13, 20, 22]
    if size < 5:
        sizes += [24, 25, 31, 48]
    col = st.lists(st.integers(0, 255), min_size=3, max_size=3)
    tall = draw(st.sampled_from([size] * 3 + [1, 2, 3, 5, 8]))
    return {"size": size, "tall": tall, "order": draw(st.sampled_from([None, None, None, 1, 2, 3])), "cell": draw(st.sampled_from(sizes)),
            "cells": cells, "colors": draw(st.lists(col, min_size=n, max_size=n, unique_by=tuple)),
            "mode": draw(st.sampled_from(["map", "map", "auto", "custom", "legend", "unknown"])),
            "key": draw(st.sampled_from([None, "k"])), "label": draw(st.sampled_from([None, None, "Step 3"])),
            "same": draw(st.booleans()),  # one state object, updated and drawn again
            "more": draw(st.lists(st.lists(st.integers(0, n - 1), min_size=7, max_size=7), max_size=2)),
            "long": draw(st.integers(0, 2)) == 0,
            "names": draw(st.permutations(range(n))), "legend": draw(st.lists(col, min_size=0, max_size=8))}

NAMES = ["ph0", "Ph1", "a", "B", "10", "9", "a long name of a phase", "ph", "é", "ph10", "ph9", "-1", "Zn O"] + ["%s%d" % (c, k) for k in range(3, 8) for c in "xYz"]
# differ at the end only
LONG = ["magnesiumoxid%d" % k for k in range(10)] + ["calciumoxides %s" % c for c in "abcdefghijklmno"] + ["cobaltcobalt %s" % c for c in "ABC"]


def setup(case):
    """(artist, function of a list of cells: state, {cell: colour}, [(legend label, colour)])"""
    from pylattica.core import SimulationState
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder
    from pylattica.visualization import CellArtist, DiscreteCellArtist, SquareGridArtist2D

    size, mode = case["size"], case["mode"]
    tall = case.get("tall", size)
    S = SimpleSquare2DStructureBuilder().build(size if tall == size else (tall, size))
    S = reordered(S, case.get("order"))
    at = cells_of(S)
    names = [(LONG if case.get("long") else NAMES)[k] for k in case["names"]]
    colors = [tuple(c) for c in case["colors"]]
    key = case["key"] or OCC
    if mode == "auto":
        key = OCC

    live = SimulationState()

    def fill(cells):
        state = live if case["same"] else SimulationState()
        content = {}
        for k, (p, i) in enumerate(sorted(at.items())):
            c = cells[k % len(cells)]
            content[p] = c
            state.set_site_state(i, {key: names[c], "num": c, **({OCC: "zzz"} if key != OCC else {})})
        return state, content

    state, content = fill(case["cells"])
    kw = {} if key == OCC else {"state_key": key}
    present = sorted(set(content.values()))
    known = {names[k]: c for k, c in enumerate(colors)}
    given = None
    color = dict(enumerate(colors))
    if mode == "map":
        art = DiscreteCellArtist(known, **kw)
    elif mode == "unknown":
        del known[names[0]]
        color[0] = (0, 0, 0)
        art = DiscreteCellArtist(known, **kw)
    elif mode == "legend":
        given = {"L%d" % k: tuple(c) for k, c in reversed(list(enumerate(case["legend"])))}
        art = DiscreteCellArtist(known, legend=given, **kw)
    elif mode == "auto":
        art = DiscreteCellArtist.from_discrete_state(state)
        color = {c: tuple(art.get_color_from_cell_state({OCC: names[c]})) for c in present}
        for c in range(len(names)):  # phases that were not in the state are unknown
            color.setdefault(c, (0, 0, 0))
    else:
        class Custom(CellArtist):
            def get_color_from_cell_state(self, cell_state):
                return (9 * cell_state["num"] + 5, 200 - 7 * cell_state["num"], 77)

            def get_cell_legend_label(self, cell_state):
                return "even" if cell_state["num"] % 2 == 0 else "odd"

        art = Custom()
        color = {c: (9 * c + 5, 200 - 7 * c, 77) for c in range(len(names))}


    def scene(cells):
        state, content = fill(cells)
        present = sorted(set(content.values()))
        if given is not None:
            legend = sorted(given.items())
        elif mode == "custom":
            # cells of one label may differ: the legend shows one of their colours
            legend = [(lab, [color[c] for c in present if (c % 2 == 1) == (lab == "odd")]) for lab in
                      sorted({"odd" if c % 2 else "even" for c in present})]
        else:
            legend = sorted((names[c], color[c]) for c in present)
        return state, {p: color[c] for p, c in content.items()}, legend

    return SquareGridArtist2D(S, art), scene


def judge_image(img, cs, cells, legend, label):
    size, tall = (1 + max(p[ax] for p in cells) for ax in (0, 1))
    assert len(cells) == size * tall
    w, h = img.size
    assert w >= size * cs and h >= tall * cs, (img.size, size, tall, cs)
    px = img.convert("RGB").load()
    rows = max(tall, len(legend) + 1)
    assert w == (size + 6) * cs + 5 and h == rows * cs, ("image size", (w, h), "grid", (size, tall), "cell", cs, len(legend))

    def close(got, x, y):
        # text is drawn in white, anti-aliased, near the upper left corner
        return label is not None and 4 <= x < 60 and 4 <= y < 22

    for (cx, cy), c in cells.items():
        for x in range(cx * cs, cx * cs + cs):
            for y in range((tall - 1 - cy) * cs, (tall - cy) * cs):
                assert px[x, y] == c or close(px[x, y], x, y), ("cell", (cx, cy), "pixel", (x, y), px[x, y], "expected", c)
    for k, (lab, c) in enumerate(legend):
        x0 = size * cs + 5 + cs // 4
        y0 = k * cs + cs // 4
        ok = c if isinstance(c, list) else [c]
        got = {px[x, y] for x in range(x0, x0 + cs) for y in range(y0, y0 + cs)
               if not close(px[x, y], x, y) and y < (k + 1) * cs + cs // 4}
        assert len(got) <= 1 and got <= {tuple(o) for o in ok}, ("legend entry", k, lab, "shows", got, "expected", ok)
    if cs >= 20 and size >= 3:
        # each entry's label is written next to its swatch; different labels look different
        drawn = {}
        for k, (lab, _) in enumerate(legend):
            x0 = size * cs + 5 + cs // 4 + cs
            lab = lab[:cs * 4 // 8]  # as much as the image has room for
            drawn[lab] = frozenset((x - x0, y - k * cs) for x in range(x0, w) for y in range(k * cs + cs // 4, (k + 1) * cs + cs // 4)
                                   if max(px[x, y]) > 100)
            assert drawn[lab], ("no label next to legend entry", k, lab)
        # (labels which differ beyond the edge of the image are one entry here)
        assert len(set(drawn.values())) == len(drawn), ("labels look the same", sorted(drawn))
    if label is not None and w > 70 and h > 24:
        old = 0
        for x in range(4, 40):
            for y in range(4, 22):
                at = (x // cs, tall - 1 - y // cs)
                if x < size * cs and y < tall * cs and max(cells[at]) < 200 and px[x, y] != cells[at]:
                    old += 1
        under = {cells[x // cs, tall - 1 - y // cs] for x in range(4, 40) for y in range(4, 22)
                 if x < size * cs and y < tall * cs}
        if size * cs >= 60 and tall * cs >= 24 and all(max(c) < 200 for c in under):
            assert old, "the label is missing"


def check(case):
    artist, scene = setup(case)
    for cells in [*case["more"], case["cells"]]:  # one artist draws several states
        state, cells, legend = scene(cells)
        judge(case, artist, state, cells, legend)
    labels = [case["mode"]]
    if case["size"] != case.get("tall", case["size"]):
        labels.append("oblong")
    if len(legend) > max(y for _, y in cells):
        labels.append("legend_taller_than_grid")
    if case["more"]:
        labels.append("several_states")
    return len(set(cells.values())) > 1 and len(cells) > 1, labels


def judge(case, artist, state, cells, legend):
    from PIL import Image

    before = state.copy()
    kw = {}
    if case["cell"] is not None:
        kw["cell_size"] = case["cell"]
    if case["label"] is not None:
        kw["label"] = case["label"]
    img = artist.get_img(state, **kw)
    cs = case["cell"] or 20
    judge_image(img, cs, cells, legend, case["label"])
    name = "img_%d.png" % os.getpid()
    artist.save_img(state, name, **kw)
    try:
        with Image.open(name) as f:
            back = f.convert("RGB")
    finally:
        os.remove(name)
    assert back.size == img.size and back.tobytes() == img.convert("RGB").tobytes(), "the saved file differs"
    assert state == before, "rendering changed the state"


SUBS = [Sub("images", strat, check, quick=400, shards=6)]
