#!/bin/bash
# Exits 0 when the behaviour is right, 1 when it is wrong.
here=$(cd "$(dirname "$0")" && pwd)
cache=$(mktemp -d)
trap 'rm -rf "$cache"' EXIT
export NUMBA_CACHE_DIR=$cache PYTHONDONTWRITEBYTECODE=1
unset NUMBA_NUM_THREADS
PYTHONPATH=$PWD timeout 150 /opt/venv/bin/python "$here/demo.py"
