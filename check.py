#!/opt/venv/bin/python
"""Entry point of every registered check.

    python check.py C05                 run the check of property C05
    python check.py C05 --replay FILE   run one saved case again

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).
Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself could not run (never counted as a verdict).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONNOUSERSITE": "1",
    "TQDM_DISABLE": "1",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}


def main():
    if os.environ.get("PBT_ENV") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env.pop("PYTHONPATH", None)
        env["PBT_ENV"] = "1"
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.dont_write_bytecode = True
    # PBT_REPO is a development aid (checks of scratch copies); the registered
    # commands do not set it
    sys.path.insert(0, os.path.join(os.environ.get("PBT_REPO", "/repo"), "src"))
    sys.path.insert(0, HERE)
    # hypothesis comes from the offline verification venv; numpy, pymatgen ...
    # from /opt/venv keep priority because this path is appended.
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from pbt import harness

    return harness.main(sys.argv[1:])


if __name__ == "__main__":
    sys.exit(main())
