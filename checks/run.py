#!/opt/venv/bin/python
"""run.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--cases a,b,c] [--nproc N]

Runs one check against /repo's working tree in a clean interpreter environment."""
import argparse
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FPV_REPO", "/repo")
PY = "/opt/venv/bin/python"

if os.environ.get("FPV_CHILD") != "1":
    import subprocess
    scratch = tempfile.mkdtemp(prefix="fpv_env_")
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("ASAN_", "UBSAN_", "LD_PRELOAD", "PYTHON", "OMPI_", "PMIX_")):
            env.pop(k)
    env.update(FPV_CHILD="1", PYTHONPATH=REPO + ":" + VERIF, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONWARNINGS="ignore", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), MPLBACKEND="Agg", MPLCONFIGDIR=scratch,
               HOME=scratch, XDG_CACHE_HOME=scratch, XDG_CONFIG_HOME=scratch, OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=scratch, LC_ALL="C.UTF-8")
    rc = 2
    try:
        rc = subprocess.call([PY, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=VERIF)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--replay")
ap.add_argument("--cases")
ap.add_argument("--nproc", type=int)
a = ap.parse_args()
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
from fpv import harness  # noqa: E402
only = [int(c) for c in a.cases.split(",")] if a.cases else None
sys.exit(harness.main(a.prop.upper(), a.tier, a.seed, replay=a.replay, nproc=a.nproc, only=only))
