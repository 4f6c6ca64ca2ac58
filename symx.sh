#!/bin/bash
# run the symx runner with the interpreter that gemlog is installed for
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${GEMLOG_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC HOME="${HOME:-/root}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore -m symx.runner "$@"
