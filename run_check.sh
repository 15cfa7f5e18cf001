#!/bin/bash
# usage: run_check.sh ID [--replay FILE]   (tier: VERIF_TIER, seed: VERIF_SEED)
# Decides one property on the tree in ${VERIF_REPO:-/repo}.
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 3
bash "$HERE/setup.sh" >/dev/null || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ="${PBT_TZ:-UTC}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export NUMBA_CACHE_DIR=${NUMBA_CACHE_DIR:-/tmp/pbt_numba_cache_$UID} NUMBA_NUM_THREADS=1
exec /opt/venv/bin/python "$HERE/harness/main.py" "$@"
