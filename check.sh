#!/bin/sh
# usage: sh check.sh PID [quick|thorough]   or   sh check.sh --replay FILE
# Runs one monitor against /repo's working tree (see DESIGN.md).
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export TERM=dumb BROWSER=/bin/true LC_ALL=C.UTF-8 PYTHONUTF8=1
unset COLUMNS LINES
exec /opt/venv/bin/python -B "$here/main.py" "$@"
