#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra args]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 \
       PYTHONDONTWRITEBYTECODE=1 SETUPTOOLS_SCM_PRETEND_VERSION=0.15.3
p=$1; t=${2:-quick}; shift; shift || true
exec /opt/venv/bin/python -m pvsym.cli "$p" --tier "$t" "$@"
