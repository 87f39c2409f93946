#!/bin/bash
# usage: check.sh <property> [quick|thorough] [more args of mc.run]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell
export PYTHONPATH=/repo
P=$1; T=${2:-quick}; shift; shift 2>/dev/null
exec /opt/venv/bin/python -m mc.run "$P" --tier "$T" "$@"
