#!/bin/sh
# run.sh <property> [options]: runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m pv "$@"
