#!/opt/venv/bin/python
"""run_check.py <property id> [--replay FILE]"""
import os
import sys

ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "agg", "OPENBLAS_NUM_THREADS": "1",
       "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}
if any(os.environ.get(k) != v for k, v in ENV.items()) or "MPLCONFIGDIR" not in os.environ:
    import subprocess
    import tempfile
    env = dict(os.environ, **ENV)
    with tempfile.TemporaryDirectory(prefix="verif_") as d:
        env.setdefault("MPLCONFIGDIR", d)
        env.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(d, "hyp"))
        env.setdefault("VERIF_TMP", d)
        sys.exit(subprocess.call([sys.executable] + sys.argv, env=env))

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import core  # noqa

if __name__ == "__main__":
    pid = sys.argv[1]
    rep = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    sys.exit(core.main(pid, rep))
