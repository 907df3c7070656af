#!/bin/bash
# usage: bash run.sh <PROPERTY> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH

exec /opt/venv/bin/python -m vlib.runner "$@"
