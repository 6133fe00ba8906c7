#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay FILE] [--sub a,b] [--scale x]
cd "$(dirname "$0")"
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= HYPOTHESIS_NO_PLUGINS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" run.py "$@"
