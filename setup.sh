#!/bin/bash
# unpack the offline Hypothesis wheels beside the checks (they also do it themselves when it is missing)
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from vp import bootstrap; bootstrap.ensure(); import hypothesis; print('hypothesis', hypothesis.__version__)"
