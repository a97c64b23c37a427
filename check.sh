#!/bin/sh
# check.sh <property> [arguments]: run a check against $VERIF_REPO (default /repo)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python run.py "$@"
