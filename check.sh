#!/bin/bash
# check.sh <property> <tier> [options] | check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
export MPLCONFIGDIR="${TMPDIR:-/tmp}"
if [ "$1" = "--replay" ]; then
    exec /opt/venv/bin/python check.py --replay "$2"
fi
p="$1"; t="${2:-quick}"; shift 2 2>/dev/null
exec /opt/venv/bin/python check.py --property "$p" --tier "$t" "$@"
