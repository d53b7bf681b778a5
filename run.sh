#!/bin/sh
# ./run.sh check C01 quick | replay FILE | hashes C01 quick N WORKERS | one C01 I
cd "$(dirname "$0")" || exit 2
export PYTHONPATH= PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export PATH=/opt/venv/bin:$PATH
exec /opt/venv/bin/python -W ignore -m sim "$@"
