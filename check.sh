#!/bin/bash
# check.sh <ID> quick|thorough   (exit 0: property held on everything explored; 1: VIOLATION line printed)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONUTF8=1
PY=/opt/venv/bin/python
exec $PY run.py "$@"
