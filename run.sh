#!/bin/bash
# bash run.sh C01 [--replay FILE]     decide one property (see pbt/runner.py)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m pbt.runner "$@"
