#!/bin/bash
# run.sh <property> [--replay FILE] [--tier quick|thorough] [--seed N] [--scale F]
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check.
HERE=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$HERE/vlib/runner.py" "$@"
