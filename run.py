#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("POLARS_MAX_THREADS") != "1":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["POLARS_MAX_THREADS"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    os.execv(py, [py] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import harness      # noqa: E402
from sim.checks import CHECKS      # noqa: E402

if __name__ == "__main__":
    sys.exit(harness.main(CHECKS[sys.argv[1]](), sys.argv[2:]))
