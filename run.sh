#!/bin/bash
# Usage: run.sh <PROPERTY> [--replay FILE]     (VERIF_SEED, VERIF_TIER from the environment)
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export HOME="${HOME:-/root}"
[ -d /opt/mplconfig ] && export MPLCONFIGDIR=/opt/mplconfig
exec /opt/venv/bin/python -W ignore "$here/vf/main.py" "$@"
