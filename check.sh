#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FILE]: run one check against /repo's working tree
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=${MC_REPO:-/repo}:$V MPLBACKEND=Agg
export MKL_THREADING_LAYER=SEQUENTIAL MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
D=$(mktemp -d /tmp/mcrun.XXXXXX) || exit 2
export MPLCONFIGDIR=$D/mpl
trap 'rm -rf "$D"' EXIT
cd "$V" || exit 2
/opt/venv/bin/python -W ignore "$V/mc/engine.py" "$@"
