"""C25: animations."""
import os

from hypothesis import strategies as st

from .c19 import cells_of
from .harness import Sub

RULE = ("case = result on a square grid (every step changes a cell) x draw frequency x cell size x frame time; the "
        "written file is opened and its frames compared with the step images; non-trivial = at least two frames")
ASSUMPTIONS = ["square 2D grids, colour maps of up to six clear colours (GIF palettes are exact for them to 16/255)",
               "frame times are multiples of 10 ms (the resolution of the format)",
               "rendering processes finish in whatever order the operating system gives"]
COLORS = {"a": (200, 0, 0), "b": (0, 160, 0), "c": (0, 0, 220), "d": (230, 200, 0), "e": (120, 0, 120), "f": (0, 150, 150)}


@st.composite
def strat(draw):
    size = draw(st.sampled_from([2, 3, 4, 5]))
    n = size * size
    k = draw(st.sampled_from([0, 1, 2, 3, 5, 8, 11, 14, 23] + ([112] if size == 2 else [33])))
    return {"size": size, "init": draw(st.lists(st.sampled_from(sorted(COLORS)), min_size=n, max_size=n)),
            "steps": draw(st.lists(st.lists(st.integers(0, 1000), min_size=2, max_size=2), min_size=k, max_size=k)),
            "freq": draw(st.sampled_from([None, None, 1, 2, 3, 4, 5, 20])),
            "cell": draw(st.sampled_from([8, 10, 15] * 3 + ([70, 130] if k < 20 else []))),
            "wait": draw(st.sampled_from([None, 0.1, 0.5, 1, 0.25, 2, 0.37, 1.42, 8, 30, 0.02, 0.04, 0.01])),
            "skew": draw(st.sampled_from([[0], [0], [6, 0], [0, 12, 0, 3]])),
            "bare": draw(st.integers(0, 3)) == 0,
            "name": draw(st.sampled_from(["out.gif", "anim.gif"]))}


@st.composite
def strat_long(draw):
    k = draw(st.sampled_from([1030, 1100, 1500]))
    rows = draw(st.lists(st.lists(st.integers(0, 1000), min_size=2, max_size=2), min_size=3, max_size=9))
    return {"size": 2, "init": ["a", "b", "c", "d"], "steps": (rows * (k // len(rows) + 1))[:k], "freq": None,
            "cell": 8, "wait": draw(st.sampled_from([None, 0.1, 0.5])), "skew": [0], "name": "out.gif"}


def check(case):
    import resource
    import time

    from PIL import Image, ImageChops
    from pylattica.core import SimulationResult, SimulationState
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder
    from pylattica.visualization import DiscreteCellArtist, ResultArtist, SquareGridArtist2D

    S = SimpleSquare2DStructureBuilder().build(case["size"])
    at = [i for _, i in sorted(cells_of(S).items())]
    state = SimulationState()
    cur = list(case["init"])
    for i, c in zip(at, cur):
        state.set_site_state(i, {OCC: c})
    res = SimulationResult(state)
    names = sorted(COLORS)
    for a, b in case["steps"]:
        k = a % len(at)
        new = names[(names.index(cur[k]) + 1 + b % (len(names) - 1)) % len(names)]
        cur[k] = new
        res.add_step({at[k]: {OCC: new}})
    skew = case["skew"]

    class Slow(SquareGridArtist2D):
        """Delays some frames, so that processes finish out of order."""

        def get_img(self, state, **kwargs):
            k = int(str(kwargs.get("label", "0")).split()[-1])
            time.sleep(skew[k % len(skew)] / 1000)
            return super().get_img(state, **kwargs)

    class Bare(SquareGridArtist2D):
        """Leaves the label out, so that two steps may look alike."""

        def get_img(self, state, **kwargs):
            return super().get_img(state, **{**kwargs, "label": None})

    art = (Bare if case.get("bare") else Slow if any(skew) else SquareGridArtist2D)(S, DiscreteCellArtist(dict(COLORS)))
    kw = {"cell_size": case["cell"]}
    if case["freq"] is not None:
        kw["draw_freq"] = case["freq"]
    if case["wait"] is not None:
        kw["wait"] = case["wait"]
    d = "gif-%d" % os.getpid()
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    here = os.getcwd()
    os.chdir(d)
    limits = resource.getrlimit(resource.RLIMIT_NOFILE)
    try:
        # the usual limit on open files, which long animations must not exceed
        resource.setrlimit(resource.RLIMIT_NOFILE, (min(1024, limits[0]), limits[1]))
        # other files here, some of them with names an exporter might use for itself
        others = ["bystander.txt", "tmp_pylat_step_0.png", "step_0.png", "0.png", "tmp.png", "frame_0.png", "other.gif"]
        for name in others:
            with open(name, "w") as f:
                f.write("contents of " + name)
        ResultArtist(art, res).to_gif(case["name"], **kw)
        files = sorted(os.listdir("."))
        assert files == sorted([case["name"], *others]), ("files left", files)
        for name in others:
            with open(name) as f:
                assert f.read() == "contents of " + name, ("another file was changed", name)
        frames = []
        with Image.open(case["name"]) as g:
            assert g.format == "GIF"
            assert getattr(g, "n_frames", 1) == 1 or g.info.get("loop") == 0, ("repeated", g.info.get("loop"))
            for k in range(getattr(g, "n_frames", 1)):
                g.seek(k)
                frames.append((g.convert("RGB"), g.info.get("duration")))
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, limits)
        os.chdir(here)
    plain = SquareGridArtist2D(S, DiscreteCellArtist(dict(COLORS)))
    freq = case["freq"] or 1
    idx = list(range(0, len(case["steps"]) + 1, freq))
    ms = round((0.8 if case["wait"] is None else case["wait"]) * 1000)
    if case.get("bare"):  # the format joins frames that look like the one before
        cells = [sorted((i, res.get_step(k).get_site_state(i)[OCC]) for i in at) for k in idx]
        shown = [k for k in range(len(idx)) if k == 0 or cells[k] != cells[k - 1]]
        assert len(frames) == len(shown), ("frames", len(frames), "expected steps", [idx[k] for k in shown])
        for f, k in enumerate(shown):
            times = (shown + [len(idx)])[f + 1] - k
            if len(shown) > 1:
                assert frames[f][1] == ms * times, ("frame of step", idx[k], "shown for", frames[f][1], "requested", ms, "times", times)
            frames[f] = (frames[f][0], ms)
        idx = [idx[k] for k in shown]
    assert len(frames) == len(idx), ("frames", len(frames), "expected steps", idx)
    for k, (img, dur) in zip(idx, frames):
        want = plain.get_img(res.get_step(k), cell_size=case["cell"], label=None if case.get("bare") else "Step %d" % k).convert("RGB")
        full = Image.new("RGB", frames[0][0].size, (0, 0, 0))
        assert img.size == full.size and full.width >= want.width and full.height >= want.height, (
            "frame of step", k, "is", img.size, "its image is", want.size)
        full.paste(want, (0, 0))
        want = full
        worst = max(hi for _, hi in ImageChops.difference(img, want).getextrema())
        assert worst <= 16, ("frame of step", k, "differs by", worst)
        if len(idx) > 1:
            assert dur == ms, ("frame of step", k, "shown for", dur, "requested", ms)
    labels = ["freq_%s" % case["freq"]]
    if any(skew):
        labels.append("out_of_order")
    if len(idx) > 1000:
        labels.append("over_1000_frames")
    return len(idx) > 1, labels


@st.composite
def strat_notebook(draw):
    size = draw(st.sampled_from([2, 3, 4]))
    n = size * size
    k = draw(st.sampled_from([0, 1, 2, 3, 6, 11]))
    return {"size": size, "init": draw(st.lists(st.sampled_from(sorted(COLORS)), min_size=n, max_size=n)),
            "steps": draw(st.lists(st.lists(st.integers(0, 1000), min_size=2, max_size=2), min_size=k, max_size=k)),
            "cell": draw(st.sampled_from([None, 4, 7, 20, 25])), "wait": draw(st.sampled_from([0, 0.05, 0.1] + ([None] if k == 1 else []))),
            "load": draw(st.sampled_from([0, 0, 2]))}


def check_notebook(case):
    """A stand-in for IPython.display records what a notebook would show."""
    import sys
    import time
    import types

    from pylattica.core import SimulationResult, SimulationState
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder
    from pylattica.visualization import DiscreteCellArtist, ResultArtist, SquareGridArtist2D

    S = SimpleSquare2DStructureBuilder().build(case["size"])
    at = [i for _, i in sorted(cells_of(S).items())]
    state = SimulationState()
    cur = list(case["init"])
    for i, c in zip(at, cur):
        state.set_site_state(i, {OCC: c})
    res = SimulationResult(state)
    names = sorted(COLORS)
    for a, b in case["steps"]:
        k = a % len(at)
        cur[k] = names[(names.index(cur[k]) + 1 + b % (len(names) - 1)) % len(names)]
        res.add_step({at[k]: {OCC: cur[k]}})
    if case["load"]:
        res.load_steps(case["load"])
    artist = SquareGridArtist2D(S, DiscreteCellArtist(dict(COLORS)))
    plain = SquareGridArtist2D(S, DiscreteCellArtist(dict(COLORS)))
    log, times = [], []
    mods = {"IPython": types.ModuleType("IPython"), "IPython.display": types.ModuleType("IPython.display")}
    mods["IPython.display"].display = lambda *a, **k: (times.append(time.monotonic()), log.extend(
        ("show", x.size, x.convert("RGB").tobytes()) for x in a))
    mods["IPython.display"].clear_output = lambda *a, **k: log.append(("clear",))
    mods["IPython"].display = mods["IPython.display"]
    old = {k: sys.modules.get(k) for k in mods}
    cs = case["cell"] or 20
    kw = {} if case["cell"] is None else {"cell_size": case["cell"]}

    def img(k, label="Step %d"):
        x = plain.get_img(res.get_step(k), cell_size=cs, **({"label": label % k} if label else {}))
        return ("show", x.size, x.convert("RGB").tobytes())

    want = [img(k) for k in range(len(case["steps"]) + 1)]
    alone = plain.get_img(res.get_step(0), cell_size=cs)
    try:
        sys.modules.update(mods)
        artist.jupyter_show(res.get_step(0), **kw)
        assert log == [("show", alone.size, alone.convert("RGB").tobytes())], "jupyter_show"
        for k in {0, len(want) - 1, len(want) // 2}:
            log.clear()
            ResultArtist(artist, res).jupyter_show_step(k, **kw)
            assert log == [want[k]], ("jupyter_show_step", k)
        log.clear()
        pw = {} if case["wait"] is None else {"wait": case["wait"]}
        times.clear()
        ResultArtist(artist, res).jupyter_play(**kw, **pw)
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    shown = [x for x in log if x[0] == "show"]
    assert shown == want, ("images played", len(shown), "expected", len(want))
    wait = 1 if case["wait"] is None else case["wait"]
    for a, b in zip(times, times[1:]):
        assert b - a >= 0.9 * wait, ("next image after", b - a, "requested", wait)
    return len(want) > 1, ["played"]


SUBS = [Sub("notebook", strat_notebook, check_notebook, quick=40, thorough=800, shards=3, per_case_procs=2),
        Sub("long", strat_long, check, quick=1, thorough=30, shards=2, per_case_procs=2),
        Sub("gifs", strat, check, quick=60, thorough=1200, shards=4, per_case_procs=2)]
