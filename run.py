#!/usr/bin/env python3
"""Entry point of every check:  run.py <property id> [--tier quick|thorough]
[--seed N] [--replay FILE] [--jobs N].

Re-executes itself in a clean, deterministic environment with the interpreter
of the repository (/opt/venv), the vendored Hypothesis and the sources of
/repo/src, compiled afresh (no cached bytecode is read or written).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

if os.environ.get("VERIF_CHILD") != "1":
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("PYTHON", "OMP_", "OPENBLAS", "MKL_", "DASK_"))
    }
    env.update(
        VERIF_CHILD="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        # a directory that never exists: bytecode is always compiled from source
        PYTHONPYCACHEPREFIX="/nonexistent/verif-pycache",
        PYTHONPATH=os.pathsep.join([HERE, os.path.join(HERE, "vendor"), "/repo/src"]),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        TZ="UTC",
        PYTHONWARNINGS="ignore",
        HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent/hypothesis",
    )
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.exit(__import__("harness.main", fromlist=["main"]).main(sys.argv[1:]))
