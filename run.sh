#!/bin/bash
# usage: run.sh C01 [thorough]   -- runs the check of one property (see MANIFEST.json)
cd "$(dirname "$0")" || exit 2
export VERIF_SEED=${VERIF_SEED:-1}
[ "$2" = thorough ] && export VERIF_TIER=thorough
export VERIF_TIER=${VERIF_TIER:-quick}
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONWARNINGS=ignore
id=$(echo "$1" | tr 'A-Z' 'a-z')
exec /opt/venv/bin/python "harness/$id.py"
