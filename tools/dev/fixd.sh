#!/bin/bash
# fixd.sh "fix: msg" : test and commit in /tmp/dr
cd /tmp/dr
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 HOME=/root PYTHONPATH=/tmp/dr/src
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --doctest-modules src tests --disable-warnings -o junit_family=xunit2 --junitxml=/tmp/fixd.xml >/tmp/fixd.log 2>&1
python3 /opt/vp/results.py /tmp/fixd.json junit:/tmp/fixd.xml >/dev/null
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/fixd.json'))
p=t.get('passed') or t.get('stable_passed') or t.get('tests')
p=set(p if not isinstance(p,dict) else [k for k,v in p.items() if v])
print('stable',len(b),'missing',sorted(b-p)); sys.exit(bool(b-p))
P
[ $? = 0 ] || exit 1
git status --short | grep -v '^ M' && echo "UNTRACKED?"
git commit -qam "$1" && git log --oneline | head -1
