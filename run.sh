#!/bin/bash
# usage: run.sh <check module> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m "checks.$1" ${2:-}
