#!/bin/bash
# usage: check.sh ID  (tier and seed from VERIF_TIER, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONPATH=/verif/lib:/verif/drivers
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
work=$(mktemp -d /tmp/verif_run_XXXXXX)
export MPLCONFIGDIR="$work/mpl" TMPDIR="$work"
mkdir -p "$MPLCONFIGDIR"
cd "$work" || exit 2
/opt/venv/bin/python -W ignore "/verif/drivers/$1.py" 2>"$work/stderr.txt"
rc=$?
[ $rc = 0 ] || tail -c 4000 "$work/stderr.txt"
cd /
rm -rf "$work"
exit $rc
