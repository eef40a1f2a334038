#!/bin/sh
# check.sh <property> [--thorough] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
REPO=${VERIF_REPO:-/repo}
export PYTHONPATH="$REPO:$here"
cd "$here" && exec "$PY" -W ignore -m checks.run "$@"
