"""C22: phase counts and fractions."""
from hypothesis import strategies as st

from .harness import Sub

RULE = ("case = result over generated phases and steps (phases that vanish or appear only in one step included, runs "
        "longer than a hundred steps included) x threshold, compared with a direct count on an independent replay; "
        "non-trivial = at least two steps with different counts")
ASSUMPTIONS = ["every site has a phase",
               "a ratio with a zero denominator is not asked for"]
PH = ["P0", "P1", " P2", "", "p1", "only_last"]


@st.composite
def strat(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 6, 9, 40, 130]))
    init = draw(st.lists(st.integers(0, 3), min_size=min(n, 9), max_size=9))
    init = [init[(k + k * k // 9) % len(init)] for k in range(n)]
    long = draw(st.integers(0, 7)) == 0
    upd = st.dictionaries(st.integers(0, n - 1).map(str), st.integers(0, 4), max_size=3)
    steps = draw(st.lists(upd, max_size=8))
    rep = draw(st.sampled_from([99, 100, 101, 130, 150, 151, 260])) if long else 0
    more = draw(st.lists(st.tuples(st.integers(0, 8), st.integers(0, 6)).map(list), max_size=3))
    return {"init": init, "steps": steps, "more": more, "repeat": rep, "last": draw(st.sampled_from([None, None, 0, n - 1])),
            "thr": draw(st.one_of(st.just("default"), st.tuples(st.integers(0, n), st.just(n)).map(list),
                                  st.sampled_from([0.3, 0.6, 0.0, 1.0]))),
            "output": draw(st.sampled_from([2, 3, 0, 5])), "ids": draw(st.booleans()), "load": draw(st.sampled_from([None, 1, 2, 3]))}


def check(case):
    from pylattica.core import SimulationResult, SimulationState
    from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC

    n = len(case["init"])
    ids = [2 * k + 5 if case["ids"] else k for k in range(n)]
    cur = [PH[c] for c in case["init"]]
    s0 = SimulationState()
    for i, c in zip(ids, cur):
        s0.set_site_state(i, {OCC: c, "w": 1})
    res = SimulationResult(s0)
    hist = [list(cur)]
    steps = list(case["steps"])
    if case["repeat"]:
        base = steps or [{}]
        steps = [base[k % len(base)] for k in range(case["repeat"])]
    steps = [{int(k): PH[v] for k, v in u.items()} for u in steps]
    if case["last"] is not None:
        steps.append({case["last"]: "only_last"})
    for u in steps:
        res.add_step({ids[k]: {OCC: v} for k, v in u.items()})
        for k, v in u.items():
            cur[k] = v
        hist.append(list(cur))
        if len(hist) == case["output"]:  # a run ended here, steps were added afterwards
            res.set_output(res.last_step)
    if case["load"]:
        res.load_steps(case["load"])
    step_an = DiscreteStepAnalyzer()
    for k in {0, len(hist) // 2, len(hist) - 1}:
        stt = res.get_step(k)
        h = hist[k]
        present = step_an.phases_present(stt)
        assert sorted(present) == sorted(set(h)), (present, h)
        assert step_an.phase_count(stt) == len(set(h))
        for p in PH:
            assert step_an.cell_count(stt, p) == h.count(p), ("step", k, p)
            assert abs(step_an.cell_fraction(stt, p) - h.count(p) / n) < 1e-12
            for q in set(h):
                assert abs(step_an.cell_ratio(stt, p, q) - h.count(p) / h.count(q)) < 1e-12
    live = res.get_step(0)  # one state object that changes
    for h in hist[:4]:
        for i, p in zip(ids, h):
            live.set_site_state(i, {OCC: p})
        assert sorted(step_an.phases_present(live)) == sorted(set(h))
        assert [step_an.cell_count(live, p) for p in PH] == [h.count(p) for p in PH]
        assert [round(step_an.cell_fraction(live, p) * n) for p in PH] == [h.count(p) for p in PH]
    bare = SimulationState()  # a phase may be anything that can be told apart, None too
    few = [None if p == " P2" else 7 if p == "p1" else p for p in hist[-1]]
    for i, p in zip(ids, few):
        bare.set_site_state(i, {OCC: p})
    assert set(step_an.phases_present(bare)) == set(few) and step_an.phase_count(bare) == len(set(few))
    for p in [None, 7, *PH]:
        assert step_an.cell_count(bare, p) == few.count(p), ("phase", p)
        assert abs(step_an.cell_fraction(bare, p) - few.count(p) / n) < 1e-12, ("phase", p)
    an = DiscreteResultAnalyzer(res)
    everything = {p for h in hist for p in h}
    got = an.all_phases()
    assert sorted(got) == sorted(everything), ("all phases", sorted(got), sorted(everything))
    fin = an.final_phase_fractions()
    assert set(fin) == everything, (fin, everything)
    for p, f in fin.items():
        assert abs(f - hist[-1].count(p) / n) < 1e-12, ("final", p, f, hist[-1])
    assert abs(sum(fin.values()) - 1) < 1e-9
    for k in {0, 1, len(hist) // 3, len(hist) - 1}:
        if k < len(hist):
            for p in PH:
                assert abs(an.phase_fraction_at(k, p) - hist[k].count(p) / n) < 1e-12, ("at", k, p)
    thr = case["thr"]
    val = 0.01 if thr == "default" else thr if not isinstance(thr, list) else thr[0] / thr[1]
    fig = an.plot_phase_fractions() if thr == "default" else an.plot_phase_fractions(min_prevalence=val)
    traces = {}
    for t in fig.data:
        assert t.name not in traces, ("two traces of", t.name)
        traces[t.name] = (list(t.x), list(t.y))
    xs = None
    for p, (x, y) in traces.items():
        x = [int(v) for v in x]
        assert xs is None or xs == x
        xs = x
        assert len(x) == len(y)
        for a, f in zip(x, y):
            assert abs(f - hist[a].count(p) / n) < 1e-12, ("trace", p, "step", a, f, hist[a])
    if xs is not None:
        assert xs[0] == 0 and all(a < b for a, b in zip(xs, xs[1:])) and xs[-1] < len(hist)
        # evenly spaced over the whole run
        gap = xs[1] - xs[0] if len(xs) > 1 else len(hist)
        assert xs == list(range(0, len(hist), gap)), ("sampled steps", xs, "of", len(hist))
        if len(hist) <= 100:
            assert xs == list(range(len(hist))), ("sampled steps", xs, "of", len(hist))
    sampled = xs if xs is not None else list(range(len(hist))) if len(hist) <= 100 else [0]
    want = {p for p in everything if max(hist[a].count(p) / n for a in sampled) > val}
    assert set(traces) == want, ("traces", sorted(traces), "expected", sorted(want), "threshold", val)
    # the result goes on, and the same analyzer is asked again
    for k, (i, v) in enumerate(case["more"]):
        v = (PH + ["later"])[v]
        res.add_step({ids[i % n]: {OCC: v}})
        cur[i % n] = v
        hist.append(list(cur))
        assert set(an.all_phases()) == {p for h in hist for p in h}, ("after more steps", an.all_phases())
        fin = an.final_phase_fractions()
        assert {p: round(f * n) for p, f in fin.items()} == {p: cur.count(p) for h in hist for p in h}, fin
        assert abs(an.phase_fraction_at(len(hist) - 1, v) - cur.count(v) / n) < 1e-12
    if case["more"]:
        assert {t.name for t in an.plot_phase_fractions(min_prevalence=-1).data} == {p for h in hist for p in h}
    if len(hist) <= 20:
        import matplotlib.pyplot as plt

        plt.close("all")
        an.plot_phase_counts()
        drawn = [(int(x), int(y)) for ln in plt.gca().get_lines() for x, y in zip(ln.get_xdata(), ln.get_ydata())]
        plt.close("all")
        assert drawn == [(k, len(set(h))) for k, h in enumerate(hist)], ("phase counts drawn", drawn)
    labels = ["goes_on"] if case["more"] else []
    if case["last"] is not None:
        labels.append("phase_only_in_last_step")
    if case["repeat"]:
        labels.append("long")
    if isinstance(thr, list):
        labels.append("threshold_on_a_fraction")
    return any(sorted(a) != sorted(hist[0]) for a in hist), labels


SUBS = [Sub("results", strat, check, quick=500, shards=6)]
