"""Process environment for the checks: interpreter, import paths, quiet warnings."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    want = {
        "TZ": "UTC",
        "MPLBACKEND": "Agg",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
    }
    if os.environ.get("_SYMX_ENV") != "1":
        env = dict(os.environ)
        env.update(want)
        env.pop("PYTHONPATH", None)
        env["_SYMX_ENV"] = "1"
        scratch = os.path.join(VERIF, "evidence", ".mpl")
        os.makedirs(scratch, exist_ok=True)
        env["MPLCONFIGDIR"] = scratch
        py = VENV_PY if os.path.exists(VENV_PY) else sys.executable
        os.execve(py, [py, *sys.argv], env)
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    sys.path.append(Z3_SITE)
    import warnings

    warnings.filterwarnings("ignore")
