#!/bin/bash
# Nothing to build: checks import SPFlow from the working tree. Verify the toolchain is usable.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/evidence" "$here/replay"
cd /tmp && PYTHONPATH=/repo:"$here" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import hypothesis, torch, numpy, scipy, spflow, vf.core
print("hypothesis", hypothesis.__version__, "torch", torch.__version__, "spflow", spflow.__file__)
P
