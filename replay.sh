#!/bin/bash
# replay.sh FILE : re-executes the unit of exploration that produced a violation file and prints what it reports.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here"
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -m mc.runner --replay "$1"
