#!/bin/bash
# run.sh PROP TIER : entry point of every registered check
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python check.py "$1" --tier "${2:-quick}" "${@:3}"
