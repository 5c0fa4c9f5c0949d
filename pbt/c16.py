"""C16: built-in grid and honeycomb neighbourhoods."""
import itertools
import random

from hypothesis import strategies as st

from . import gens as G
from . import structs as T
from .c19 import reordered
from .harness import Sub

RULE = ("case = built-in structure builder x grid size (int or tuple, small sizes that wrap onto themselves "
        "included) x neighbourhood kind and size x seed; every cell is judged; non-trivial = more than one cell and "
        "a neighbourhood that does not cover the grid")
ASSUMPTIONS = ["circular radii keep 0.002 away from every unequal grid distance (distances are compared after "
               "rounding to three decimals)"]


@st.composite
def strat(draw):
    kind = draw(st.sampled_from(["moore", "vonneumann", "circular", "hex", "pent", "moore", "vonneumann"]))
    dim = draw(st.sampled_from([2, 2, 3])) if kind != "pent" else 2
    hi = {2: draw(st.sampled_from([8, 8, 8, 13])), 3: 5}[dim]
    if draw(st.booleans()):
        size = draw(st.integers(1, hi))
    else:
        size = draw(st.lists(st.integers(1, hi), min_size=dim, max_size=dim))
    k = draw(st.one_of(st.integers(1, 4 if dim == 2 else 2), st.sampled_from([5, 6, 7] if dim == 2 else [3, 4])))
    if kind in ("moore", "vonneumann") and draw(st.integers(0, 9)) == 0:  # a wide reach with room for it
        k = draw(st.sampled_from([4, 5, 5, 6, 7] if dim == 2 else [2, 2, 3]))
        lo = [draw(st.sampled_from([2 * k + 1, 2 * k + 2, 2 * k + 3])), draw(st.integers(2 * k - 1, 2 * k + 2)), 2 * k + 1]
        size = draw(st.permutations(lo[:dim]))
    if kind == "circular":
        near = st.tuples(st.integers(1, 30), st.sampled_from([-0.02, -0.01, -0.005, 0.003, 0.01, 0.02])).map(
            lambda t: round(t[0] ** 0.5 + t[1], 3))
        k = draw(st.one_of(st.integers(1, 5), st.integers(4, 40).map(lambda x: x / 10), near))
    return {"kind": kind, "order": draw(st.sampled_from([None, None, None, 1, 2])), "dim": dim, "size": size, "k": k, "default": draw(st.integers(0, 3)) == 0,
            "first": draw(st.sampled_from([None, None, 2, 3, 5])),
            "seed": draw(st.integers(0, 10**6))}


HEX3 = [(-1, -1, 1), (-1, 1, 1), (1, 1, 1), (1, -1, 1)]


def build_grid(case):
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder

    from pylattica.core.constants import LOCATION, SITE_ID

    dim = case["dim"]
    size = case["size"]
    num = [size] * dim if isinstance(size, int) else size
    B = SimpleSquare2DStructureBuilder() if dim == 2 else SimpleSquare3DStructureBuilder()
    S = reordered(B.build(size if isinstance(size, int) else tuple(size)), case.get("order"))
    at = {}
    for s in S.sites():
        loc = tuple(int(round(float(x))) for x in s[LOCATION])
        assert all(abs(float(x) - y) < 1e-9 for x, y in zip(s[LOCATION], loc)), s
        assert loc not in at, ("two sites in one cell", loc)
        at[loc] = s[SITE_ID]
    return S, at, num


def lattice_axes(S, dim):
    """Extent of the grid along x, y, z, from the lattice vectors."""
    out = []
    for ax in range(dim):
        ext = [abs(float(v[ax])) for v in S.lattice.vecs if abs(float(v[ax])) > 1e-9]
        assert len(ext) == 1, S.lattice.vecs
        out.append(int(round(ext[0])))
    return out


def check(case):
    from pylattica.structures.square_grid import neighborhoods as N

    S, at, num = build_grid(case)
    dim = case["dim"]
    ext = lattice_axes(S, dim)
    assert sorted(ext) == sorted(num), (ext, num)
    if isinstance(case["size"], int):
        assert ext == num
    cells = set(itertools.product(*[range(e) for e in ext]))
    assert set(at) == cells, ("missing cells", cells - set(at), "unexpected", set(at) - cells)
    assert len(S.site_ids) == len(cells) and len(set(S.site_ids)) == len(cells)
    kind, k = case["kind"], case["k"]

    def tor(a, b):
        return [min((x - y) % n, (y - x) % n) for x, y, n in zip(a, b, ext)]

    def shifted(p, offs):
        return frozenset(at[tuple((x + o) % n for x, o, n in zip(p, off, ext))] for off in offs) - {at[p]}

    choices = None
    first = None if case["first"] is None else build_grid({**case, "size": case["first"]})[0]

    class Built:
        """The builder has served another grid before."""

        def __init__(self, builder):
            self.builder = builder

        def get(self, structure):
            if first is not None:
                self.builder.get(first)
            return self.builder.get(structure)

    if kind == "moore":
        if case["default"] and dim == 2:
            k = 1
            nb = Built(N.MooreNbHoodBuilder()).get(S)
        else:
            nb = Built(N.MooreNbHoodBuilder(k, dim=dim)).get(S)
        near = lambda a, b: max(tor(a, b)) <= k
    elif kind == "vonneumann":
        if dim == 2 and case["default"]:
            k = 1
            nb = Built(N.VonNeumannNbHood2DBuilder()).get(S)
        else:
            nb = Built((N.VonNeumannNbHood2DBuilder if dim == 2 else N.VonNeumannNbHood3DBuilder)(k)).get(S)
        near = lambda a, b: sum(tor(a, b)) <= k
    elif kind == "circular":
        ds = {sum(x * x for x in tor(min(cells), c)) ** 0.5 for c in cells}
        while any(abs(d - k) < 0.002 and d != k for d in ds):
            k = k + 0.0101
        nb = Built(N.CircularNeighborhoodBuilder(k)).get(S)
        near = lambda a, b: sum(x * x for x in tor(a, b)) < k * k
    elif kind == "hex":
        faces = [tuple(s if i == j else 0 for j in range(dim)) for i in range(dim) for s in (1, -1)]
        corners = [(1, 1), (1, -1)] if dim == 2 else HEX3
        choices = [faces + [c, tuple(-x for x in c)] for c in corners]
        nb = Built((N.PseudoHexagonalNeighborhoodBuilder2D if dim == 2 else N.PseudoHexagonalNeighborhoodBuilder3D)()).get(S)
    else:
        ring = [o for o in itertools.product((-1, 0, 1), repeat=2) if o != (0, 0)]
        choices = [[o for o in ring if o[ax] != s] for ax in (0, 1) for s in (1, -1)]
        nb = Built(N.PseudoPentagonalNeighborhoodBuilder()).get(S)

    random.seed(case["seed"])
    if choices is None:
        full = True
        for p, i in at.items():
            want = {j for q, j in at.items() if q != p and near(p, q)}
            got = T.nb_set(nb, i)
            assert got == want, ("cell", p, "missing", sorted(want - got), "unexpected", sorted(got - want))
            full = full and len(want) == len(cells) - 1
        return len(cells) > 1 and not full, [kind + str(dim)] + (["whole_grid"] if full else [])
    few = sorted(cells)[:: max(1, len(cells) // 3)]
    distinct = 1
    for p in sorted(cells):
        want = {shifted(p, offs) for offs in choices}
        distinct = max(distinct, len(want))
        seen = set()
        for _ in range(160 if p in few else 3):
            got = frozenset(T.nb_set(nb, at[p]))
            assert got in want, ("cell", p, "neighbours", sorted(got), "allowed", [sorted(w) for w in want])
            seen.add(got)
        if p in few:
            assert seen == want, ("cell", p, "never returned", [sorted(w) for w in want - seen])
    return distinct == len(choices), [kind + str(dim)]


@st.composite
def strat_honey(draw):
    return {"size": draw(st.one_of(st.integers(3, 9), st.lists(st.integers(3, 9), min_size=2, max_size=2)))}


def check_honey(case):
    from pylattica.structures.honeycomb import HoneycombNeighborhoodBuilder, HoneycombTilingBuilder

    size = case["size"]
    num = [size, size] if isinstance(size, int) else size
    S = HoneycombTilingBuilder().build(size if isinstance(size, int) else tuple(size))
    assert len(S.site_ids) == num[0] * num[1] == len(set(S.site_ids))
    h = 3 ** 0.5 / 2
    m = [[1.0, 0.0], [0.5, h]]
    vecs = [[x * n for x in v] for v, n in zip(m, num)]
    locs = {i: [float(x) for x in S.site_location(i)] for i in S.site_ids}
    # one site per cell: the sites are the translates of one of them
    ref = locs[min(locs)]
    left = dict(locs)
    for a in range(num[0]):
        for b in range(num[1]):
            t = [ref[c] + a * m[0][c] + b * m[1][c] for c in (0, 1)]
            hit = [i for i, q in left.items() if G.congruent(q, t, vecs, [True, True], 0.005)]
            assert len(hit) == 1, ("cell", a, b, hit)
            del left[hit[0]]
    nb = HoneycombNeighborhoodBuilder().get(S)
    for i in locs:
        got = T.nb_set(nb, i)
        want = {j for j in locs if j != i and G.min_image(locs[i], locs[j], vecs, [True, True]) < 1.2}
        assert got == want and len(got) == 6, ("site", i, "got", sorted(got), "want", sorted(want))
        for j, w in T.nb_weights(nb, i).items():
            assert abs(w - 1) < 0.003, (i, j, w)
    return True, ["honeycomb"]


SUBS = [Sub("grids", strat, check, quick=500, shards=6),
        Sub("honeycomb", strat_honey, check_honey, quick=30, thorough=300)]
