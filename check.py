#!/usr/bin/env python3
"""check.py C01: decide one property (see sim/runner.py). Exit 0 held, 1 violated, 2 error of the check."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
os.chdir(HERE)
os.execve(PY, [PY, "-W", "ignore", "-m", "sim.runner", "check"] + sys.argv[1:], env)
