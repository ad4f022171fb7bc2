#!/bin/bash
# run.sh ID [quick|thorough] : decide one property against the code in /repo.
# Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=ID replay=...": broken.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here"
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
exec "$PY" -m mc.runner "$1" "${2:-${VERIF_TIER:-quick}}"
