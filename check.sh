#!/bin/bash
# check.sh PROPERTY [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_T0="$(date +%s.%N)"
[ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_TIER="${VERIF_TIER:-quick}" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" "$here/harness/check.py" "$1"
