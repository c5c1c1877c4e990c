#!/usr/bin/env python3
"""Decide one property of proadv by property-based testing.

    run.py <PROPERTY-ID>                 run the check (VERIF_SEED, VERIF_TIER)
    run.py <PROPERTY-ID> --replay FILE   re-run one recorded case
    run.py --list                        list properties and facets
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import os
import sys

_ENV = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}
_PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in _ENV.items()) or os.path.realpath(sys.prefix) != "/opt/venv":
    if os.environ.get("VERIF_REEXEC") != "1":
        os.environ.update(_ENV)
        os.environ["VERIF_REEXEC"] = "1"
        exe = _PY if os.path.exists(_PY) else sys.executable
        os.execv(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness  # noqa: E402

if __name__ == "__main__":
    try:
        code = harness.main(sys.argv[1:])
    except Exception:  # a failure of the check itself, never a verdict
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
