#!/opt/venv/bin/python
"""check.py <property id> [--thorough] | --replay FILE

Decides one property by symbolic execution of the code in /repo and SMT.
exit 0: held on everything explored; exit 1: violation reproduced on the real
code (VIOLATION line)."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("CALK_VERIF_CHILD") != "1":
    import shutil
    import subprocess
    import tempfile

    scratch = tempfile.mkdtemp(prefix="calkverif_")
    env = dict(os.environ)
    env.update(
        CALK_VERIF_CHILD="1", PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONHASHSEED="0", MPLBACKEND="Agg", CALK_VERIF_SCRATCH=scratch,
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
    )
    env.pop("PYTHONPATH", None)
    try:
        rc = subprocess.call(
            ["/opt/venv/bin/python", os.path.abspath(__file__), *sys.argv[1:]],
            env=env,
        )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

sys.path.insert(0, os.environ.get("CALK_REPO", "/repo"))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from symx import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
