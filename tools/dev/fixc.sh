#!/bin/bash
# usage: fixc.sh "message"
cd /repo
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { cat /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print({k:type(v).__name__ for k,v in b.items()}) if False else None
def st(x):
    for k in ('stable_passed','stable','passed','tests','pass'):
        if k in x: return x[k]
s=st(b); p=st(t)
s=set(s); p=set(p if not isinstance(p,dict) else [k for k,v in p.items() if v])
m=s-p
print('stable',len(s),'missing',sorted(m))
import sys; sys.exit(bool(m))
P
[ $? = 0 ] || exit 1
git status --short | grep -v '^ M' && echo "UNTRACKED?"
git commit -qam "$1" && git log --oneline | head -1
