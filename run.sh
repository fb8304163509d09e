#!/bin/bash
# usage: run.sh <PROPERTY-ID> [quick|thorough]     runs the check of one property against /repo
#        run.sh replay <replay.json>               re-executes a reported violation
cd "$(dirname "$(realpath "$0")")" || exit 2
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$PWD/lib:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/vf PYTHONHASHSEED=0
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
VF_T=$(mktemp -d /tmp/vfrun.XXXXXX) || exit 2
export MPLCONFIGDIR="$VF_T/mpl" VERIF_TMP="$VF_T"
mkdir -p "$MPLCONFIGDIR"
trap 'rm -rf "$VF_T"' EXIT
if [ "$1" = replay ]; then
  /opt/venv/bin/python -W ignore lib/replay.py "$(realpath "$2")"; exit $?
fi
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
/opt/venv/bin/python -W ignore -m "checks.$(echo "$ID" | tr 'A-Z' 'a-z')" --tier "$TIER"
rc=$?
exit $rc
