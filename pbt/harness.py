"""Shared driver: runs the sub-checks of one property with Hypothesis.

Every sub-check is a pair (strategy, check).  The strategy builds a *case*: a
plain JSON value holding every input, including the seeds handed to the random
module.  ``check(case)`` is an ordinary function (no Hypothesis inside) that
drives pylattica through its public API and raises AssertionError when the
property does not hold; a shrunk failing case is therefore its own replay file.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from multiprocessing import get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.path.join(os.environ.get("PBT_REPO", "/repo"), "src")
OUT = os.environ.get("PBT_OUT", VERIF)
CASE_TIMEOUT = 60
BUDGET = {"quick": 420, "thorough": int(os.environ.get("PBT_BUDGET", "700"))}  # seconds; later cases are skipped and counted as skipped


class CaseTimeout(BaseException):
    """A single case ran far beyond its bound (never shrunk)."""


class HarnessError(Exception):
    """The check could not run; not a statement about the property."""


class Sub:
    """One sub-check: a strategy of cases and the oracle that judges a case."""

    def __init__(self, name, strategy, check, quick=300, thorough=None, shards=None,
                 per_case_procs=1):
        self.name = name
        self.strategy = strategy  # zero-argument callable returning a strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.shards = shards
        self.per_case_procs = per_case_procs


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _alarm(_sig, _frm):
    raise CaseTimeout()


def _guarded(check, case, limit):
    """Runs check(case) with a watchdog; returns what the check returns."""
    # the case handed over is a private copy: a check (or the code under test)
    # that mutates it cannot spoil the replay file
    private = json.loads(json.dumps(case))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return check(private)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _describe(exc):
    tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return "".join(tb)[-3000:]


def _is_env_error(exc):
    if isinstance(exc, (MemoryError, HarnessError)):
        return True
    if isinstance(exc, OSError) and exc.errno in (11, 12, 23, 24, 28):  # EAGAIN ENOMEM ENFILE EMFILE ENOSPC
        return True
    return False


def _run_shard(modname, subname, seed, n, out, deadline):
    """Child process: one Hypothesis run of one sub-check; writes a report."""
    rep = {"sub": subname, "seed": seed, "evaluations": 0, "skipped": 0,
           "hashes": [], "labels": {}, "samples": [], "failure": None, "error": None}
    t0 = time.time()
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis.internal.conjecture import engine as _eng

        if hasattr(_eng, "MAX_SHRINKING_SECONDS"):
            _eng.MAX_SHRINKING_SECONDS = 40
        mod = importlib.import_module("pbt." + modname)
        sub = [s for s in mod.SUBS if s.name == subname][0]
        hashes = set()
        last = {"case": None, "exc": None}
        before = []  # what this process ran before its first failure

        def body(case):
            if time.time() > deadline:
                rep["skipped"] += 1
                return
            rep["evaluations"] += 1
            if last["case"] is None:
                before.append(canon(case))
                del before[:-400]
            try:
                res = _guarded(sub.check, case, CASE_TIMEOUT)
            except CaseTimeout:
                last["case"], last["exc"] = case, "case exceeded %d s" % CASE_TIMEOUT
                raise
            except Exception as e:  # noqa: BLE001 - any escape is a finding
                if _is_env_error(e):
                    last["env"] = _describe(e)
                last["case"], last["exc"] = case, _describe(e)
                raise
            nontrivial, labels = res if isinstance(res, tuple) else (res, ())
            for lab in labels:
                rep["labels"][lab] = rep["labels"].get(lab, 0) + 1
            if nontrivial:
                h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    if len(rep["samples"]) < 2 or (
                        len(rep["samples"]) < 4 and len(hashes) % 97 == 0
                    ):
                        txt = canon(case)
                        rep["samples"].append(
                            case if len(txt) < 1500 else {"truncated": txt[:1500]}
                        )
            else:
                rep["labels"]["trivial"] = rep["labels"].get("trivial", 0) + 1

        test = given(sub.strategy())(body)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except CaseTimeout:
            rep["failure"] = {"case": last["case"], "why": last["exc"], "hang": True, "before": []}
        except BaseException as e:  # noqa: BLE001
            if "env" in last:
                rep["error"] = last["env"]
            elif last["case"] is not None:
                # includes Hypothesis' Flaky errors: the last failing case is real
                rep["failure"] = {"case": last["case"], "why": last["exc"], "hang": False, "before": before}
            else:
                rep["error"] = _describe(e)
        rep["hashes"] = sorted(hashes)
    except BaseException as e:  # noqa: BLE001
        rep["error"] = _describe(e)
    rep["wall_s"] = time.time() - t0
    tmp = out + ".part"
    with open(tmp, "w") as f:
        json.dump(rep, f)
    os.rename(tmp, out)


def _shard_entry(scratch, *args):
    import tempfile as _tf

    cwd = os.path.join(scratch, "cwd-%d" % os.getpid())
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)  # whatever a case writes by relative name stays in scratch
    os.environ["TMPDIR"] = cwd
    _tf.tempdir = cwd
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        _run_shard(*args)
    finally:
        os._exit(0)


def _fresh(sub, cases, limit=60):
    """Runs the cases one after another in a new process; whether the last one failed."""
    ctx = get_context("fork")
    r, w = ctx.Pipe(False)

    def job():
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        out = False
        try:
            for c in cases[:-1]:
                try:
                    _fails(sub.check, c)
                except HarnessError:
                    pass
            out = _fails(sub.check, cases[-1]) is not None
        finally:
            w.send(out)
            os._exit(0)

    p = ctx.Process(target=job)
    p.start()
    res = r.recv() if r.poll(limit) else False
    p.kill()
    p.join()
    return res


def _needed_before(sub, case, before, limit=80):
    """(cases that must run first, case): nothing when the case fails on its own, else what
    ran before it, reduced by halving; None when not even the whole history makes it fail."""
    end = time.time() + limit
    if _in_scratch(lambda: _fresh(sub, [case])):
        return [], case
    hist = [json.loads(b) for b in before]
    if hist and canon(hist[-1]) == canon(case):
        hist.pop()
    if not _in_scratch(lambda: _fresh(sub, hist + [case])):
        if not before:
            return None
        hist = [json.loads(b) for b in before]
        case = hist.pop()  # the case that failed first, before shrinking
        if not _in_scratch(lambda: _fresh(sub, hist + [case])):
            return None
    size = len(hist)
    while size >= 1 and time.time() < end:
        k = 0
        while k < len(hist) and time.time() < end:
            shorter = hist[:k] + hist[k + size:]
            if _in_scratch(lambda: _fresh(sub, shorter + [case])):
                hist = shorter
            else:
                k += size
        size //= 2
    return hist, case


def _write_replay(prop, sub, case, why, before=()):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(canon(case).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s-%s.json" % (prop, sub, h))
    with open(p, "w") as f:
        d = {"property": prop, "sub": sub, "case": case, "why": why}
        if before:
            d["before"] = list(before)
        json.dump(d, f, indent=1)
    return p


def load_findings(prop):
    """Known findings of one property: [{property, sub, what, case}]."""
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("known", []) if k["property"] == prop]


def _find_sub(mod, name):
    for s in list(mod.SUBS) + list(getattr(mod, "FINDING_SUBS", [])):
        if s.name == name:
            return s
    raise HarnessError("no sub-check %r" % name)


def _fails(check, case, limit=CASE_TIMEOUT):
    """None if the case passes, else the reason."""
    try:
        _guarded(check, case, limit)
        return None
    except CaseTimeout:
        return "case exceeded %d s" % limit
    except Exception as e:  # noqa: BLE001
        if _is_env_error(e):
            raise HarnessError(_describe(e))
        return _describe(e)


def _in_scratch(fn):
    scratch = tempfile.mkdtemp(prefix="pbt-")
    old = os.getcwd()
    os.chdir(scratch)
    try:
        return fn()
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module("pbt." + prop.lower())
    sub = _find_sub(mod, r["sub"])
    def again():
        for c in r.get("before", []):  # the failure depends on what ran earlier
            _fails(sub.check, c)
        return _fails(sub.check, r["case"], 3 * CASE_TIMEOUT)

    why = _in_scratch(again)
    if why is None:
        print("replay: property %s holds on this case" % prop)
        return 0
    print(why)
    print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path)))
    return 1


def run(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = os.environ.get("PBT_ONLY")
    scale = 3 * float(os.environ.get("PBT_SCALE", "1"))
    mod = importlib.import_module("pbt." + prop.lower())
    subs = [s for s in mod.SUBS if not only or s.name in only.split(",")]

    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    ctx = get_context("fork")
    ncpu = max(1, min(8, os.cpu_count() or 1))
    jobs = []
    for s in subs:
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        shards = s.shards or (1 if total < 60 else ncpu if tier == "thorough" else min(4, ncpu))
        shards = min(shards, total)
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            sseed = int(hashlib.sha256(
                ("%d/%s/%s/%d" % (seed, prop, s.name, k)).encode()).hexdigest()[:15], 16)
            jobs.append((s, sseed, n))
    # heavier ones first, limited concurrency
    jobs.sort(key=lambda j: -j[0].per_case_procs)
    pending = list(enumerate(jobs))
    running = {}
    reports = []
    errors = []
    failed_subs = set()

    def slots():
        return sum(j[0].per_case_procs for _, j, _ in running.values())

    def collect(block=True):
        done = [i for i, (p, _, _) in running.items() if not p.is_alive()]
        if not done and block:
            time.sleep(0.02)
        for i in done:
            p, j, out = running.pop(i)
            p.join()
            if os.path.exists(out):
                with open(out) as f:
                    rep = json.load(f)
                reports.append(rep)
                if rep["failure"]:
                    failed_subs.add(rep["sub"])
            else:
                errors.append("%s: shard ended without a report (exit %s)" % (j[0].name, p.exitcode))

    try:
        while pending or running:
            while pending and slots() < ncpu:
                i, j = pending.pop(0)
                if j[0].name in failed_subs:
                    continue  # already decided: keep the run short
                out = os.path.join(scratch, "rep-%d.json" % i)
                p = ctx.Process(target=_shard_entry,
                                args=(scratch, prop.lower(), j[0].name, j[1], j[2], out, t0 + BUDGET[tier]))
                p.daemon = False
                p.start()
                running[i] = (p, j, out)
            collect()
    finally:
        for p, _, _ in running.values():
            p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    known = load_findings(prop)
    known_keys = {(k["sub"], canon(k["case"])) for k in known}
    violations, slow = [], []
    seen_fail = set()
    for rep in reports:
        if rep["error"]:
            errors.append("%s: %s" % (rep["sub"], rep["error"]))
        f = rep["failure"]
        if not f or rep["sub"] in seen_fail:
            continue
        sub = _find_sub(mod, rep["sub"])
        if (rep["sub"], canon(f["case"])) in known_keys:
            continue
        if f["hang"]:
            if violations:  # one of them is enough to wait for
                continue
            # slow is not wrong: only what does not end with much more time counts
            again = _in_scratch(lambda: _fails(sub.check, f["case"], 3 * CASE_TIMEOUT))
            if again is None:
                slow.append("%s: a case exceeded its time bound once" % rep["sub"])
                print("note: " + slow[-1])
                continue
            f["why"] = again
        seen_fail.add(rep["sub"])
        found = ([], f["case"]) if f["hang"] else _needed_before(sub, f["case"], f["before"])
        if found is None:
            f["why"] = "(not repeated when rerun alone: the failure depends on chance or timing)\n" + f["why"]
            found = [], f["case"]
        violations.append((rep["sub"], found[1], f["why"], found[0]))

    # findings recorded in the committed file: replay each one
    for k in known:
        sub = _find_sub(mod, k["sub"])
        why = _in_scratch(lambda: _fails(sub.check, k["case"]))
        if why is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    evals = sum(r["evaluations"] for r in reports)
    hashes = set()
    labels = {}
    samples = []
    per_sub = {}
    for r in reports:
        hashes.update(r["sub"] + h for h in r["hashes"])
        d = per_sub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": set(), "classes": {}})
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"].update(r["hashes"])
        for k, v in r["labels"].items():
            d["classes"][k] = d["classes"].get(k, 0) + v
        have = sum(1 for s in samples if s["sub"] == r["sub"])
        for c in r["samples"][: max(0, 3 - have)]:
            samples.append({"sub": r["sub"], "case": c})
    for d in per_sub.values():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples,
            "per_sub_check": per_sub,
            "skipped_for_time": sum(r["skipped"] for r in reports),
            "errors": errors[:5],
            "slow": slow[:5],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    print("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, evals, len(hashes), time.time() - t0))
    for name, d in sorted(per_sub.items()):
        print("  %-28s %6d cases %6d non-trivial  %s" % (
            name, d["evaluations"], d["distinct_nontrivial"],
            " ".join("%s=%d" % kv for kv in sorted(d["classes"].items()))))
    if violations:
        for sub, case, why, needed in violations:
            print("--- %s" % sub)
            print(why)
            print("case: %s" % canon(case)[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, _write_replay(prop, sub, case, why, needed)))
        return 1
    if errors:
        for e in errors:
            print("CHECK-ERROR: %s" % e, file=sys.stderr)
        return 2
    return 0


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    prop = argv[0]
    if prop == "--selftest":  # setup: everything the checks need is importable
        import hypothesis  # noqa: F401
        import pylattica  # noqa: F401

        for f in sorted(os.listdir(os.path.join(VERIF, "pbt"))):
            if f.startswith("c") and f.endswith(".py"):
                importlib.import_module("pbt." + f[:-3])
        print("ok: hypothesis %s, pylattica at %s" % (hypothesis.__version__, pylattica.__file__))
        return 0
    try:
        import pylattica

        if not os.path.abspath(pylattica.__file__).startswith(REPO_SRC):
            raise HarnessError("pylattica imported from %s" % pylattica.__file__)
        if len(argv) >= 3 and argv[1] == "--replay":
            return replay(prop, argv[2])
        return run(prop)
    except Exception as e:  # noqa: BLE001
        print("CHECK-ERROR: %s" % _describe(e), file=sys.stderr)
        return 2
