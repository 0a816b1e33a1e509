#!/bin/bash
# bash check.sh <property id>   (VERIF_TIER=quick|thorough)
cd "$(dirname "$0")" || exit 2
export PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=/repo:$PWD
export MPLCONFIGDIR=$(mktemp -d /tmp/mcmpl.XXXXXX)
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -W ignore -m mc.core "$@"
