#!/bin/bash
# check.sh <PROPERTY> <quick|thorough>: decide one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_REPO=${VERIF_REPO:-/repo}   # overridden only while developing the checks
export PYTHONPATH=$VERIF_REPO:$PWD/harness
export VERIF_TIER=${2:-quick}
exec /opt/venv/bin/python -W ignore harness/main.py "$1" "$VERIF_TIER"
