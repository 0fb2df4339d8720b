#!/bin/bash
# Nothing is built ahead of a check: checks import /repo's current tree and the
# preinstalled Hypothesis. This only confirms both are there.
set -e
cd "$(dirname "$(readlink -f "$0")")"
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, "lib"); import vf
vf.import_hypothesis()
import ansible, ansibug
print("ok")
PY
mkdir -p evidence
