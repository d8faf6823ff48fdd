#!/bin/bash
# usage: run.sh <property-id> <quick|thorough> [--replay FILE]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
scratch="$(mktemp -d "${TMPDIR:-/tmp}/rv.XXXXXXXX")" || exit 3
trap 'rm -rf -- "$scratch"' EXIT
export HOME="${HOME:-/root}" LANG=C.UTF-8 MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl"
if [ -d /opt/venv/mplconfig ]; then cp -r /opt/venv/mplconfig "$scratch/mpl" 2>/dev/null; fi
mkdir -p "$scratch/mpl" "$scratch/home"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc-none" PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONPATH="${RV_REPO:-/repo}:$here"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$tier" RV_SCRATCH="$scratch" RV_HOME="$here"
export TMPDIR="$scratch"
cd "$scratch" || exit 3
/opt/venv/bin/python -W ignore "$here/rv/main.py" "$id" "$tier" "$@"
rc=$?
exit $rc
