#!/bin/bash
# run.sh <property> <quick|thorough>: one check against the working tree in /repo.
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
exec python3-vt check.py "$@"
