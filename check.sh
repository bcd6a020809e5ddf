#!/bin/bash
# usage: check.sh <property id> [options]; runs checks/<id>.py against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PROJECT_DIR_FRM="${PROJECT_DIR_FRM:-/repo}" MPLBACKEND=Agg TZ=UTC PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
T=$(mktemp -d /tmp/symx.XXXXXX)
trap 'rm -rf "$T"' EXIT
export MPLCONFIGDIR="$T/mpl" PYTHONPYCACHEPREFIX="$T/pyc" NUMBA_CACHE_DIR="$T/numba" HOME="$T" SYMX_TMP="$T"
export PYTHONPATH="$PROJECT_DIR_FRM:$PWD"
id="$1"; shift
/opt/venv/bin/python -W ignore "checks/${id}.py" "$@"
