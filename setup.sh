#!/bin/bash
# Nothing to compile: checks import the library from /repo's working tree. Verifies the interpreter and the harness.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$PWD /opt/venv/bin/python -W ignore -c "import numpy, scipy, sklearn, pandas, matplotlib; from mc import core, env, models; print(len(models.ZOO), 'weighting model configurations')"
