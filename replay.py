#!/usr/bin/env python3
"""replay.py FILE: repeat the run of a replay file; exit 1 if the violation is there again."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
f = os.path.abspath(sys.argv[1])
os.chdir(HERE)
os.execve(PY, [PY, "-W", "ignore", "-m", "sim.runner", "replay", f], env)
