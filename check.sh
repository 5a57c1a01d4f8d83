#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--replay FILE] : runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TZ=UTC
exec /opt/venv/bin/python -W ignore check.py "$@"
