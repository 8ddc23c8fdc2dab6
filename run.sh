#!/bin/bash
# bash run.sh PROP [quick|thorough]   |   bash run.sh --replay replay/PROP.json
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" LANG=C.UTF-8 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/mpl_mc}"
exec /opt/venv/bin/python -W ignore mc/main.py "$@"
