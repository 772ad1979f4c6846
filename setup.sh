#!/bin/bash
# Nothing to compile: check that the code under test and its dependencies import.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "
import torch, einops, einconv, singd
from singd.optim.optimizer import SINGD
print('torch', torch.__version__, 'singd', singd.__file__)"
