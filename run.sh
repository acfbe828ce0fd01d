#!/bin/bash
# bash run.sh <property-id> [quick|thorough]      run one check
# bash run.sh --replay <replay.json>              re-run one recorded case
cd "$(dirname "$0")" || exit 2
unset PYTHONDONTWRITEBYTECODE
export PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=2
export LC_ALL=C.UTF-8 LANG=C.UTF-8
S=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export PYTHONPYCACHEPREFIX="$S/pyc"      # fresh byte code for every run, shared by its worker processes
export VH_SCRATCH="$S" MPLBACKEND=Agg MPLCONFIGDIR="$S/mpl" XDG_CACHE_HOME="$S/cache" XDG_CONFIG_HOME="$S/cache" NUMBA_CACHE_DIR="$S/numba" HOME="$S"
mkdir -p "$S/mpl" "$S/cache" "$S/numba"
export JOBLIB_TEMP_FOLDER="$S"
export VERIF_REPO="${VERIF_REPO:-/repo}"
[ "$1" = "--replay" ] || export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
/opt/venv/bin/python lib/main.py "$@"
rc=$?
exit $rc
