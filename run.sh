#!/bin/bash
# run.sh CXX [quick|thorough] | --warm CXX... | --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY="$(command -v python3)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "$PY" "$here/mc/run.py" "$@"
