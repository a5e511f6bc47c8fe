#!/bin/bash
# devcheck.sh REPO ID: run the check of ID against a copy of the repository (development only)
export HOME=/root LANG=C.UTF-8 MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
v=$(mktemp -d /tmp/devv_XXXXXX)
cp -a /tmp/dv/lib /tmp/dv/drivers /tmp/dv/spec /tmp/dv/KNOWN_FINDINGS.txt "$v"
export PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONPATH=$1/src:$v/lib:$v/drivers
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR="$v/mpl" TMPDIR="$v/work"
mkdir -p "$MPLCONFIGDIR" "$TMPDIR"
cd "$TMPDIR" || exit 2
/opt/venv/bin/python -c "import glimpse,sys; sys.exit(not glimpse.__file__.startswith('$1/'))" || { echo "WRONG REPO"; exit 3; }
/opt/venv/bin/python -W ignore "$v/drivers/$2.py" 2>"$v/stderr.txt"
rc=$?
[ $rc = 0 ] || tail -c 2000 "$v/stderr.txt" | grep -v Warn
cp "$v/evidence/$2.replay.json" /tmp/replay.json 2>/dev/null; cd /
rm -rf "$v"
exit $rc
