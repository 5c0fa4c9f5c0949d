"""Runs the quick check of each planted bug's property against a scratch copy
of /repo with the bug applied (development tool; no check uses it).

    python3 tools/try_seeded.py [id ...]        prints one line per bug
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def one(bug):
    d = os.path.join(HERE, "seeded", bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    work = tempfile.mkdtemp(prefix="seeded-")
    try:
        tree = os.path.join(work, "repo")
        shutil.copytree(REPO, tree, symlinks=True)
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=tree, capture_output=True, text=True)
        if r.returncode:
            return bug, prop, "DOES NOT APPLY", ""
        env = dict(os.environ, PBT_REPO=tree, PBT_OUT=work, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop], cwd=HERE, env=env,
                           capture_output=True, text=True)
        lines = r.stdout.splitlines()
        hit = r.returncode == 1 and any(x.startswith("VIOLATION property=" + prop) for x in lines)
        sub = [x.split()[1] for x in lines if x.startswith("--- ")]
        took = [x.split(",")[-1].strip() for x in lines if "tier=" in x]
        return bug, prop, "caught" if hit else "MISSED rc=%d" % r.returncode, "%s %s" % (",".join(sub), took[0] if took else "")
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    bugs = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with ThreadPoolExecutor(int(os.environ.get("WORKERS", "2"))) as ex:
        for res in ex.map(one, bugs):
            print(*res, flush=True)
