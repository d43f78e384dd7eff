#!/bin/bash
# usage: run.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--jobs N] [--fail-fast]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 DASK_SCHEDULER=synchronous
mkdir -p evidence
export MPLCONFIGDIR=${MPLCONFIGDIR:-$PWD/evidence/.mpl}
mkdir -p "$MPLCONFIGDIR"
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
