#!/bin/bash
# check.sh <ID> <quick|thorough>: one check, in the pinned interpreter.
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python run.py "$@"
