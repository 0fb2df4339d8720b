#!/bin/bash
# bash run.sh C01 [--tier quick|thorough] [--seed N] [--replay FILE]
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/lib/vf.py" "$@"
