#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONWARNINGS=ignore
SCRATCH=$(mktemp -d /tmp/vfcheck.XXXXXXXX) || exit 2
export VF_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl" HYPOTHESIS_STORAGE_DIRECTORY="$SCRATCH/hyp"
mkdir -p "$SCRATCH/mpl" "$SCRATCH/hyp"
/opt/venv/bin/python -m vf.runner "$@"
rc=$?
case "$SCRATCH" in /tmp/vfcheck.*) rm -rf -- "$SCRATCH" ;; esac
exit $rc
