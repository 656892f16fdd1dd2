#!/bin/bash
here="$(cd "$(dirname "$0")/.." && pwd)"; cd "$here"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore PYTHONPATH=/repo:$here
exec /opt/venv/bin/python tools/find_known.py "$@"
