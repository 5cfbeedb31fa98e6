#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m symx.run "$1" --tier "${2:-quick}" "${@:3}"
