"""C32: errors in update rules end the run and leave everything usable."""
import multiprocessing

from hypothesis import strategies as st

from . import rules
from .harness import Sub

RULE = ("case = synthetic rule x the place where it fails (update rule at a given application, choice of the next site, "
        "preparation hook, result hook) x kind of error x runner (serial, 1-5 workers, asynchronous); non-trivial = the "
        "error occurs after at least one completed step, or in a worker process")
ASSUMPTIONS = ["errors raised in worker processes are of types that survive pickling",
               "workers report by raising; a worker process that is killed is not covered"]


class Trouble(Exception):
    """An error of the rule's own."""


KINDS = {"trouble": Trouble, "value": ValueError, "key": KeyError, "zero": ZeroDivisionError, "assert": AssertionError,
         "type": TypeError, "index": IndexError, "runtime": RuntimeError, "stop": StopIteration, "attr": AttributeError,
         "os": OSError, "lookup": LookupError, "eof": EOFError, "notimpl": NotImplementedError}


@st.composite
def strat(draw):
    how = draw(st.sampled_from(["serial", "parallel", "serial", "parallel", "async", "async"]))
    if how == "async":
        c = draw(rules.async_case(max_sites=6, max_steps=10, default_prob=10**6))
        c["next"] = [None]
        c["cycle"] = True
        if c["provider"] == "default":
            c["provider"] = [0]
        c["where"] = draw(st.sampled_from(["rule", "rule", "choice", "choice", "choice", "choice", "prepare", "result"]))
    else:
        c = draw(rules.sync_case(max_sites=8, max_steps=5, forms=[f for f in rules.SYNC_FORMS if f not in ("grow", "found")]))
        c["where"] = draw(st.sampled_from(["rule", "rule", "rule", "rule", "prepare", "result"]))
    if not c["ids"]:
        c["ids"], c["init"], c["nbrs"] = [3], [1], [[0]]
    c["steps"] = min(max(c["steps"], 2), 8)
    c["how"] = how
    c["workers"] = draw(st.sampled_from([2, 3, 1, 5]))
    c["fail_step"] = draw(st.one_of(st.integers(1, c["steps"] - 1), st.integers(1, c["steps"] - 1), st.integers(0, c["steps"] - 1)))
    c["fail_site"] = draw(st.integers(0, len(c["ids"]) - 1))
    # each kind is tried in turn, with everything else the same
    most = 1 if how == "parallel" else 6
    c["error"] = draw(st.lists(st.sampled_from(sorted(KINDS)), min_size=most, max_size=most, unique=True))
    c["args"] = draw(st.lists(st.one_of(st.integers(0, 9), st.text(max_size=5)), max_size=2))
    return c


def failing(base, case, error):
    """The controller that raises `error` once it gets there."""

    class Failing(base):
        def trip(self, state, site_id=None):
            n = state.get_general_state().get("#step", 0)
            if case["where"] == "choice" and n >= case["fail_step"] or n == case["fail_step"] and (site_id is None or site_id == case["ids"][case["fail_site"]]):
                self.raised = True
                raise error

        def pre_run(self, initial_state):
            super().pre_run(initial_state)
            if case["where"] == "prepare":
                raise error

        def instantiate_result(self, starting_state):
            r = super().instantiate_result(starting_state)
            if case["where"] == "result":
                raise error
            return r

    return Failing


def counted(base, case, error):
    """Counts the steps in the general state, and fails in one of them."""
    from pylattica.core.constants import GENERAL, SITES

    asynchronous = case["how"] == "async"

    class Counted(failing(base, case, error) if error is not None else base):
        def get_state_update(self, site_id, prev_state):
            if error is not None and case["where"] == "rule":
                self.trip(prev_state, None if asynchronous else site_id)
            _, _, sites, gen = self._apply(site_id, prev_state)
            return {SITES: sites, GENERAL: dict(gen, **{"#step": prev_state.get_general_state().get("#step", 0) + 1})}

        def get_random_site(self, state):
            if error is not None and case["where"] == "choice":
                self.trip(state)
            return super().get_random_site(state)

    return Counted(case)


def check(case):
    from pylattica.core import AsynchronousRunner, SynchronousRunner

    how = case["how"]
    base = rules.AsyncRule if how == "async" else rules.SyncRule
    mk = {"serial": SynchronousRunner, "async": AsynchronousRunner,
          "parallel": lambda: SynchronousRunner(parallel=True, workers=case["workers"])}[how]
    ref = (AsynchronousRunner if how == "async" else SynchronousRunner)().run(
        rules.build_state(case), counted(base, case, None), case["steps"])
    full = [rules.snapshot(ref.get_step(k)) for k in range(len(ref))]

    raised = [fails(case, how, base, mk, full, kind) for kind in case["error"]]
    return any(raised) and (how == "parallel" or case["fail_step"] > 0), [how, case["where"]] + case["error"]


def fails(case, how, base, mk, full, kind):
    """Whether an error of that kind is raised."""
    s0 = rules.build_state(case)
    before = rules.snapshot(s0)
    error = KINDS[kind](*case["args"])
    runner, ctl = mk(), counted(base, case, error)
    caught = None
    try:
        runner.run(s0, ctl, case["steps"])
    except Exception as e:  # noqa: BLE001 - compared below
        caught = e
    asked = case["where"] == "choice"
    # the choice is asked at the start and whenever no site is waiting, also after the last step
    if not asked or caught is not None or getattr(ctl, "raised", False):
        assert caught is not None, ("the run ended as if nothing had happened", case["where"])
        if how == "parallel" and case["where"] == "rule":
            assert type(caught) is type(error) and caught.args == error.args, (repr(caught), "instead of", repr(error))
        elif isinstance(error, StopIteration):
            assert caught is error or caught.__cause__ is error or isinstance(caught, StopIteration), repr(caught)
        else:
            assert caught is error, (repr(caught), "instead of", repr(error))
    assert rules.snapshot(s0) == before, "the caller's state was modified"
    if case["where"] != "result" and (ctl.results or case["where"] != "prepare"):
        res = ctl.results[0]
        if case["where"] == "prepare":
            assert len(res) == 1
        elif case["where"] == "rule":
            assert len(res) == case["fail_step"] + 1, (len(res), "steps recorded when step", case["fail_step"], "failed")
        for k in range(len(res)):
            assert rules.snapshot(res.get_step(k)) == full[k], ("step", k, "before the error")
    if how == "parallel":
        left = [p for p in multiprocessing.active_children() if p.is_alive()]
        for p in left:
            p.join(5)
        assert not any(p.is_alive() for p in left), "worker processes are left behind"
    # the same runner, with the same state, works as if nothing had happened
    again = runner.run(s0, counted(base, case, None), case["steps"])
    assert len(again) == len(full)
    for k in range(len(full)):
        assert rules.snapshot(again.get_step(k)) == full[k], ("step", k, "of the next run")
    return caught is not None


SUBS = [Sub("errors", strat, check, quick=400, shards=4, per_case_procs=2)]
