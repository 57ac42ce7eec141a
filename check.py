#!/usr/bin/env python3
"""Entry point:  check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--workers N]
                 check.py <PROPERTY> --replay FILE
exit 0: held on everything explored; 1: VIOLATION line printed; 2: harness error."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "CUDA_VISIBLE_DEVICES": "-1",
    "TF_CPP_MIN_LOG_LEVEL": "3", "MPLBACKEND": "Agg", "AWS_EC2_METADATA_DISABLED": "true",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "TF_NUM_INTRAOP_THREADS": "1", "TF_NUM_INTEROP_THREADS": "1",
    "VP_REEXEC": "1", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "TZ": "UTC",
}
if os.environ.get("VP_REEXEC") != "1":
    env = dict(os.environ, **ENV)
    env.pop("DATAPROFILER_SEED", None)
    env["PYTHONPATH"] = HERE
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vp import bootstrap  # noqa: E402

bootstrap.ensure()
from vp import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
