#!/bin/bash
# run.sh <property> [quick|thorough] [--only KEY]   -- decide one property on /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export AUXI_REPO="${AUXI_REPO:-/repo}"
export PYTHONPATH="$AUXI_REPO:$here" PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONUNBUFFERED=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -B -m mc.supervise "$@"
