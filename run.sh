#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay FILE] [--workers N]
here="$(cd "$(dirname "$0")" && pwd)"
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export PYTHONPATH="$here"
export HOME="${HOME:-/root}"
if [ "$1" = setup ]; then
  # nothing to build ahead of the checks: only confirm the interpreter and imports are there
  exec /opt/venv/bin/python -B -c 'import numpy, scipy, vz.core; print("setup ok")'
fi
exec /opt/venv/bin/python -B -m vz.main "$@"
