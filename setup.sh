#!/bin/bash
# Nothing is compiled: checks import /repo as it is. Only makes sure that what they need is there.
cd "$(dirname "$0")" || exit 2
exec env -u PYTHONPATH PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, attr, yaml, immutablecollections
print("hypothesis", hypothesis.__version__)
PY
