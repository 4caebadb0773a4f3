#!/bin/bash
# run.sh PROPERTY [quick|thorough]: runs the check of one property
cd "$(dirname "$0")"
export PYTHONPATH="$PWD/lib" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=2
exec python3-vt "checks/$1.py" "${2:-${VERIF_TIER:-quick}}"
