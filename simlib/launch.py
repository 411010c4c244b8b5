"""Start the real entry points in a controlled interpreter."""

import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

WANT = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "TZ": "UTC",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "PYTHONWARNINGS": "ignore",
}


def environment(**more):
    env = dict(os.environ)
    env.update(WANT)
    env.update(more)
    env["PYTHONPATH"] = ROOT + os.pathsep + os.path.join(REPO, "src")
    env.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl-%d" % os.getuid())
    return env


def ensure():
    """Re-execute under the interpreter of the project with a fixed hash seed."""
    py = PY if os.path.exists(PY) else sys.executable
    if os.environ.get("VERIF_LAUNCHED") == "1":
        return
    env = environment(VERIF_LAUNCHED="1")
    os.execve(py, [py] + sys.argv, env)
