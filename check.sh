#!/bin/bash
# usage: check.sh <property-id> [quick|thorough] [--replay=FILE]
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 TQDM_DISABLE=1
export VERIF_REPO="${VERIF_REPO:-/repo}"
exec /opt/venv/bin/python -W ignore harness/check.py "$@"
