#!/bin/bash
# Compile the clipper extension of the current /repo into the cache (checks redo this
# themselves when the sources differ).
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); from mc import boot; print(boot.load().__version__)"
