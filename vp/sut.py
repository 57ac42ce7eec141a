"""The system under test, quietened and made deterministic."""
import logging
import os
import random
import sys
import warnings

warnings.simplefilter("ignore")
for _k in ("TF_NUM_INTRAOP_THREADS", "TF_NUM_INTEROP_THREADS"):
    os.environ.setdefault(_k, "1")  # one worker per core already
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
REPO = os.environ.get("VP_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402,F401

_stderr = sys.stderr
import dataprofiler as dp  # noqa: E402

assert os.path.realpath(dp.__file__).startswith(os.path.realpath(REPO) + os.sep), dp.__file__
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

from dataprofiler import settings as dp_settings  # noqa: E402

logging.getLogger("DataProfiler").setLevel(logging.CRITICAL)


def reset(seed=0):
    random.seed(seed)
    np.random.seed(seed)
    dp_settings._seed = seed
    os.environ.pop("DATAPROFILER_SEED", None)
    warnings.simplefilter("ignore")
