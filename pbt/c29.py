"""C29: 3D rendering."""
import os

from hypothesis import strategies as st

from .c19 import cells_of, reordered
from .harness import Sub

RULE = ("case = grid of equal or unequal sides x several states x artist (colour map, state key, custom class) x shell_only; every cube "
        "handed to the 3D axes is recorded and the colours of the pixels are compared; non-trivial = at least two "
        "cells and two colours")
ASSUMPTIONS = ["the image is made with matplotlib's 3D axes seen from the default direction (the faces "
               "with the largest x, smallest y and largest z are visible); cubes are recorded where they enter the axes"]
NAMES = ["red", "green", "blue", "pink", "mud"]
COLORS = [(255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 0, 255), (90, 60, 30)]


@st.composite
def strat(draw):
    size = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    dims = [size] * 3
    if draw(st.integers(0, 2)) == 0:
        dims = draw(st.permutations([size, draw(st.integers(1, 4)), draw(st.integers(1, 3))]))
    n = dims[0] * dims[1] * dims[2]
    grids = st.lists(st.integers(0, 4), min_size=n, max_size=n)
    if n > 27:  # patterns are cheaper to draw than many cells
        grids = st.lists(st.integers(0, 4), min_size=7, max_size=11)
    big = draw(st.integers(0, 14)) == 0
    if big:
        dims, grids = [7, 7, 7], st.lists(st.integers(0, 2), min_size=5, max_size=5)
    return {"dims": dims, "order": draw(st.sampled_from([None, None, 1, 2])), "grids": draw(st.lists(grids, min_size=1, max_size=1 if big else 2)),
            "close": draw(st.sampled_from([0, 0, 0, 1, 2, 2])),
            "key": draw(st.sampled_from([None, "k"])), "how": draw(st.sampled_from(["map", "custom", "state", "unknown"])),
            "shell": draw(st.sampled_from([None, False, True])), "cell": draw(st.sampled_from([None, 5])),
            "label": draw(st.sampled_from([None, "Step 3"]))}


EXTREME = [(255, 255, 255), (1, 0, 0), (0, 1, 1), (1, 1, 1), (254, 255, 255)]
CLOSE = [(1, 17, 1), (17, 1, 1), (1, 1, 17), (11, 11, 1), (0, 0, 0)]


class Recorder:
    """Stands in front of Axes3D.voxels and keeps what every cell was drawn with."""

    def __enter__(self):
        from mpl_toolkits.mplot3d.axes3d import Axes3D

        self.cls, self.orig, self.calls = Axes3D, Axes3D.voxels, []
        rec = self

        def voxels(ax, *args, **kw):
            filled = kw.get("filled", args[-1] if args else None)
            rec.calls.append((filled, kw.get("facecolors", kw.get("facecolor", kw.get("color"))), kw.get("alpha")))
            return rec.orig(ax, *args, **kw)

        Axes3D.voxels = voxels
        return self

    def __exit__(self, *a):
        self.cls.voxels = self.orig

    def cells(self):
        """{cell: list of opaque colours}, and the shape drawn."""
        import numpy as np
        from matplotlib.colors import to_rgba

        out, shapes = {}, set()
        for filled, fc, alpha in self.calls:
            filled = np.asarray(filled)
            shapes.add(filled.shape)
            arr = np.asarray(fc)
            for cell in zip(*np.nonzero(filled)):
                cell = tuple(int(i) for i in cell)
                c = fc
                if arr.ndim >= 3:
                    c = arr[cell]
                    c = c if arr.ndim == 3 else tuple(float(x) for x in c)
                r = to_rgba(c)
                a = r[3] if alpha is None else alpha
                if a > 0.99:
                    out.setdefault(cell, []).append(tuple(round(255 * x) for x in r[:3]))
        return out, shapes


def check(case):
    import warnings

    import matplotlib
    from PIL import Image
    from pylattica.core import SimulationState
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.structures.square_grid import SimpleSquare3DStructureBuilder
    from pylattica.visualization import CellArtist, DiscreteCellArtist, SquareGridArtist3D

    dims, how = case["dims"], case["how"]
    S = SimpleSquare3DStructureBuilder().build(dims[0] if len(set(dims)) == 1 else tuple(dims))
    S = reordered(S, case.get("order"))
    at = cells_of(S)
    top = [max(p[ax] for p in at) for ax in range(3)]
    assert len(at) == dims[0] * dims[1] * dims[2]
    key = case["key"] or OCC
    if how == "state":
        key = OCC
    kw = {} if key == OCC else {"state_key": key}
    states = []
    for g in case["grids"]:
        s = SimulationState()
        content = {}
        for k, (p, i) in enumerate(sorted(at.items())):
            c = g[k % len(g)]
            content[p] = c
            s.set_site_state(i, {key: NAMES[c], "num": c, **({OCC: "zzz"} if key != OCC else {})})
        states.append((s, content))
    palette = [COLORS, CLOSE, EXTREME][int(case["close"])]
    color = dict(enumerate(palette))
    if how == "map":
        art = DiscreteCellArtist(dict(zip(NAMES, palette)), **kw)
    elif how == "unknown":
        art = DiscreteCellArtist(dict(zip(NAMES[1:], palette[1:])), **kw)
        color[0] = (0, 0, 0)
    elif how == "state":
        art = DiscreteCellArtist.from_discrete_state(states[0][0])
        for c, name in enumerate(NAMES):
            color[c] = tuple(art.get_color_from_cell_state({OCC: name}))
    else:
        class Custom(CellArtist):
            def get_color_from_cell_state(self, cell_state):
                return palette[cell_state["num"]]

            def get_cell_legend_label(self, cell_state):
                return "all"

        art = Custom()
    artist = SquareGridArtist3D(S, art)
    kw = {} if case["cell"] is None else {"cell_size": case["cell"]}
    if case["label"]:
        kw["label"] = case["label"]
    if case["shell"] is not None:
        kw["shell_only"] = case["shell"]
    for n, (s, content) in enumerate(states):
        before = s.copy()
        with warnings.catch_warnings(), matplotlib.rc_context({"savefig.dpi": 25}):
            warnings.simplefilter("ignore")
            with Recorder() as rec:
                img = artist.get_img(s, **kw)
            if n == 0:
                name = "img3_%d.png" % os.getpid()
                artist.save_img(s, name, **kw)
                with Image.open(name) as f:
                    back = f.convert("RGB")
                os.remove(name)
                assert back.size == img.size and back.tobytes() == img.convert("RGB").tobytes(), "the saved file differs"
        assert s == before, "rendering changed the state"
        drawn, shapes = rec.cells()
        assert shapes and shapes == {tuple(t + 1 for t in top)}, ("boxes drawn", shapes, "grid", top)
        for p, cs in drawn.items():
            assert set(cs) == {color[content[p]]}, ("cell", p, "drawn as", cs, "its state's colour is", color[content[p]])
        face = {p for p in content if p[0] == top[0] or p[1] == 0 or p[2] == top[2]}
        missing = sorted((face if case["shell"] else set(content)) - set(drawn))
        assert not missing, ("cells not drawn", missing)
        # the pixels: faces are shades of their cell's colour
        hues = {hue(px) for px in img.convert("RGB").getdata()}
        big = {content[p] for p in face if max(top) <= 2}
        for c in big:
            if hue(color[c]) is not None and color[c] in COLORS[:4]:
                assert hue(color[c]) in hues, ("no pixel shows", color[c], hues)
        present = {hue(color[c]) for c in content.values()}
        if present <= {hue(c) for c in COLORS[:4]}:
            mixed = {tuple(a or b for a, b in zip(h, k)) for h in present for k in present}  # smoothed edges
            assert hues - {None} <= mixed, ("colours in the picture", hues, "cells", present)
    cols = {color[c] for c in content.values()}
    return len(content) > 1 and len(cols) > 1, [how, "shell" if case["shell"] else "full"] + (["oblong"] if len(set(top)) > 1 else [])


def hue(px):
    """Which channels are lit, for pixels that are shades of a pure colour; None otherwise."""
    hi = max(px)
    if hi < 90:
        return None
    lit = [x > 0.8 * hi for x in px]
    dark = [x < 0.05 * hi for x in px]
    if all(a or b for a, b in zip(lit, dark)) and not all(lit):
        return tuple(lit)
    return None


SUBS = [Sub("images", strat, check, quick=40, thorough=800, shards=6)]
