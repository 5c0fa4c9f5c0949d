"""C05: site lookup by location."""
import numpy as np
from hypothesis import strategies as st

from . import gens as G
from .c04 import judge_sites
from .harness import Sub

RULE = ("case = lattice x periodicity x history of add / duplicate add / lookup / miss operations; non-trivial = "
        "at least two sites and one lookup or duplicate through a periodic image")
ASSUMPTIONS = ["sites are at least 0.05 apart; misses are at least 0.01 from every site",
               "positions within 2e-5 of a rounding tie of the 3-decimal site resolution are left out",
               "sites a few steps of the resolution from a face are looked up at their exact location, not at the rounded one",
               "looked-up locations are the exact location, its image computed in floating point, or the rounded "
               "location the structure reports"]

CLASSES = ["O", "Os", "s", ""]


def steps_aside(dim):
    """Steps of the resolution away from the position, along the Cartesian axes."""
    return st.one_of(st.just([0] * dim), st.just([0] * dim), st.lists(st.sampled_from([0, -1, 1, -2, 3]), min_size=dim, max_size=dim))


@st.composite
def op(draw, dim):
    kind = draw(st.sampled_from(["add", "add", "add", "dup", "hit", "hit", "own", "miss", "list"]))
    sh = draw(st.lists(st.integers(-3, 3), min_size=dim, max_size=dim))
    if kind in ("add", "miss"):
        return [kind, draw(G.site_frac_strategy(dim)), sh, draw(st.sampled_from(CLASSES)), draw(steps_aside(dim))]
    return [kind, draw(st.integers(0, 30)), sh, draw(st.sampled_from(CLASSES))]


@st.composite
def strat(draw):
    lat = draw(G.lattice_case(dims=(1, 2, 2, 2, 3, 3)))
    dim = len(lat["vecs"])
    ops = [["add", draw(G.site_frac_strategy(dim)), draw(st.lists(st.integers(-3, 3), min_size=dim, max_size=dim)),
            draw(st.sampled_from(CLASSES)), draw(steps_aside(dim))] for _ in range(draw(st.integers(1, 4)))]
    ops += draw(st.lists(op(dim), min_size=3, max_size=18))
    return {"lat": lat, "ops": ops, "far": draw(st.sampled_from([1] * 5 + [400, 30011])),
            "base": draw(st.sampled_from([0] * 5 + [12, -75, 40013])), "form": draw(st.sampled_from(["tuple", "array", "list"]))}


def check(case):
    from pylattica.core import PeriodicStructure
    from pylattica.core.constants import LOCATION, SITE_CLASS, SITE_ID

    lat = case["lat"]
    vecs, per, m = lat["vecs"], G.flags(lat), G.mat(lat)
    conv = {"list": list, "tuple": tuple, "array": np.array}[case["form"]]
    S = PeriodicStructure(G.make_lattice(lat))
    model = []  # (id, class, frac)
    image = dups = misses = 0

    far = case.get("far", 1)
    inv = np.linalg.inv(m)
    ops = [[o[0], [f + float(e) for f, e in zip(o[1], np.dot([0.001 * k for k in o[4]], inv))] if len(o) > 4 and any(o[4]) else o[1],
            o[2], o[3]] for o in case["ops"]]
    nudged = [o[4] if len(o) > 4 else [] for o in case["ops"]]
    case = dict(case, ops=[[k, [f + (0 if p else case.get("base", 0)) for f, p in zip(x, per)] if isinstance(x, list) else x, sh, c]
                           for k, x, sh, c in ops])  # sites far off along the open axes

    def cart(f, sh=None):
        if sh is not None:
            f = [x + (k * far if p else 0) for x, k, p in zip(f, sh, per)]
        return conv([float(x) for x in np.dot(f, m)])

    def expect(loc, entry, what):
        s = S.site_at(loc)
        if entry is None:
            assert s is None, (what, "found", s)
            assert S.id_at(loc) is None
            assert S.class_at(loc) is None
            return
        assert s is not None, (what, "no site at", np.asarray(loc).tolist(), "expected id", entry[0])
        assert s[SITE_ID] == entry[0] and s[SITE_CLASS] == entry[1], (what, s, entry)
        assert S.id_at(loc) == entry[0]
        assert S.class_at(loc) == entry[1]
        assert G.min_image(s[LOCATION], cart(entry[2]), vecs, per) < 0.002

    aside = set()
    for (kind, x, sh, cls), n in zip(case["ops"], nudged):
        if kind == "add":
            c = cart(x)
            if G.near_tie(np.asarray(c)) or any(G.min_image(c, cart(f), vecs, per) < 0.05 for _, _, f in model):
                continue
            arg = cart(x, sh)
            sid = S.add_site(cls, arg)
            if case["form"] != "tuple":  # the caller's object stays the caller's
                for k in range(len(arg)):
                    arg[k] += 0.375
            assert sid not in [e[0] for e in model], "id reused"
            model.append((sid, cls, x))
            if any(n):
                aside.add(sid)
            if any(k and p for k, p in zip(sh, per)):
                image += 1
        elif kind == "miss":
            c = cart(x)
            if any(G.min_image(c, cart(f), vecs, per) < 0.01 for _, _, f in model):
                continue
            misses += 1
            expect(cart(x, sh), None, "miss")
            # along an open axis an image is a different place
            continue
        elif not model:
            continue
        elif kind == "dup":
            e = model[x % len(model)]
            dups += 1
            try:
                S.add_site(cls, cart(e[2], sh))
            except Exception:
                pass
            else:
                raise AssertionError("occupied location accepted a second site")
            if any(k and p for k, p in zip(sh, per)):
                image += 1
        elif kind == "hit":
            e = model[x % len(model)]
            expect(cart(e[2], sh), e, "image lookup")
            if any(k and p for k, p in zip(sh, per)):
                image += 1
            for ax, p in enumerate(per):  # an open axis has no images
                if not p:
                    f = list(e[2])
                    f[ax] += 1 + abs(sh[ax])
                    c = cart(f)
                    if not any(G.min_image(c, cart(g), vecs, per) < 0.01 for _, _, g in model):
                        expect(c, None, "open axis")
        elif kind == "own":
            e = model[x % len(model)]
            loc = S.site_location(e[0])
            if e[0] in aside and G.min_image(loc, cart(e[2]), vecs, per) > 1e-7:
                continue  # rounding may carry it across a face
            expect(loc, e, "reported location")
            expect(tuple(float(v) for v in loc), e, "reported location")
        elif kind == "list":
            for part in (S.sites(), S.sites(cls), S.sites(site_class="none of these"), S.all_site_classes()):
                part.clear()  # the caller's list
            judge_sites(S, [(c, cart(f)) for _, c, f in model], vecs, per, 0.002)
    judge_sites(S, [(c, cart(f)) for _, c, f in model], vecs, per, 0.002)
    for e in model:
        expect(cart(e[2]), e, "final")
    assert S.get_site(max([e[0] for e in model], default=0) + 1000) is None
    labels = []
    if dups:
        labels.append("duplicate_add")
    if misses:
        labels.append("miss")
    if any(any(v == 0 for v in e[2]) for e in model):
        labels.append("site_on_face")
    off = m - np.diag(np.diag(m))
    if np.any(np.abs(off) > 1e-9):
        labels.append("oblique_or_permuted")
    if len(set(per)) > 1:
        labels.append("mixed_pbc")
    return len(model) >= 2 and image > 0, labels


SUBS = [Sub("history", strat, check, quick=1500)]
