#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree (see DESIGN.md)."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
env = dict(os.environ)
env.setdefault("HOME", "/root")
env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONWARNINGS="ignore")
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("VERIF_CHILD") != "1":
    env["VERIF_CHILD"] = "1"
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, os.path.join(HERE, "py"))
import harness  # noqa
import props    # noqa
sys.exit(harness.main(sys.argv))
