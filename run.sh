#!/bin/bash
# usage: run.sh <ID> quick|thorough     |     run.sh replay <artefact.json>
cd "$(dirname "$0")" || exit 2
T=$(mktemp -d /tmp/mcrun.XXXXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export NUMBA_CACHE_DIR="$T/numba" PYTHONPYCACHEPREFIX="$T/pyc" MPLCONFIGDIR="$T/mpl" MPLBACKEND=Agg TMPDIR="$T"
export PYTHONPATH="${MC_REPO:-/repo}:$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=${NUMBA_NUM_THREADS:-4} NUMBA_WARNINGS=0
unset SSQ_GPU SSQ_PARALLEL NUMBA_DISABLE_JIT
mkdir -p "$T/numba" "$T/mpl"
PY=${MC_PYTHON:-/opt/venv/bin/python}
if [ "$1" = selftest ]; then exec_cmd=(selftest); elif [ "$1" = replay ]; then exec_cmd=(replay "$2"); else exec_cmd=(check "$1" "${2:-quick}"); fi
"$PY" -m mc.main "${exec_cmd[@]}"
