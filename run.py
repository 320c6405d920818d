#!/opt/venv/bin/python
"""Entry point of every check.

    run.py C01                   run the check of property C01 (tier from VERIF_TIER, seed from VERIF_SEED)
    run.py C01 --replay FILE     run one saved case again, without the property-testing library
    run.py C01 --sub NAME        only one sub-check (development)

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: error of the check itself.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_ENV = {
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "TZ": "UTC", "PYTHONWARNINGS": "ignore",
}
if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ, **_ENV, VERIF_REEXEC="1")
    env.pop("PYTHONPATH", None)
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.join(HERE, "vendor"))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

from lib import harness  # noqa: E402

sys.exit(harness.main(sys.argv[1:], REPO))
