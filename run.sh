#!/bin/bash
# ./run.sh C01 [quick|thorough] [extra runner args]
cd "$(dirname "$0")" || exit 2
p=$1; t=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "$PY" -m vlib.runner "$p" --tier "$t" "$@"
