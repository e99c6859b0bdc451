#!/usr/bin/env python3
"""Entry point of every check:  python3 check.py C01 [--tier quick|thorough] [--replay FILE] [--only SUB]

Generated-input checks of RBenazzouk/tJHam, one per property of properties.jsonl. The code under test is imported from
/repo (VT_REPO overrides it, for scratch copies); Hypothesis comes from the python tooling venv.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
HYPOTHESIS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "TQDM_DISABLE": "1",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore",
    "PYTHONPYCACHEPREFIX": "/nonexistent-pycache", "VT_CHILD": "1",
}

if __name__ == "__main__":
    if os.environ.get("VT_CHILD") != "1":
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        env.update(ENV)
        exe = PYTHON if os.access(PYTHON, os.X_OK) else sys.executable
        os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    sys.path.append(HYPOTHESIS)
    from vt import runner
    sys.exit(runner.main(sys.argv[1:], HERE, REPO))
