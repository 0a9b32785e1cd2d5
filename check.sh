#!/bin/sh
# usage: check.sh <property id> <quick|thorough> [--replay <file>]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m mc "$@"
