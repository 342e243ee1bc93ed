#!/bin/bash
# usage: check.sh <property> [--replay FILE]; honours VERIF_SEED / VERIF_TIER
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 \
  MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 POLARS_MAX_THREADS=1 PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
# N26: bounds-checked kernels
[ "$1" = N26 ] && export NUMBA_BOUNDSCHECK=1
exec "$PY" -m vlib.run "$@"
