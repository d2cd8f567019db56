#!/bin/bash
# run.sh <PROPERTY> [--case N] [--seed S] [--cases N]
# Runs the monitors of one property against the code in /repo's working tree.
# Tier and seed come from VERIF_TIER / VERIF_SEED.
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
cd "$(dirname "$0")" || exit 2
exec "${VERIF_PYTHON:-/opt/pypy-venv/bin/python}" -W ignore lib/core.py "$@"
