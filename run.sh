#!/bin/bash
# Usage: run.sh <PROPERTY> [quick|thorough] | run.sh <PROPERTY> --replay FILE
# Runs one property check against the SPFlow working tree in $SPFLOW_REPO (default /repo).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONWARNINGS=ignore
export SPFLOW_REPO="${SPFLOW_REPO:-/repo}"
export PYTHONPATH="$SPFLOW_REPO:$here"
export VERIF_SEED="${VERIF_SEED:-1}"
py=/opt/venv/bin/python
cd "$here" || exit 3
exec "$py" -m vf.runner "$@"
