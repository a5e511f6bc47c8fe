"""Confirm and keep a planted bug: seed(name, prop, path, [(old, new), ...], needs, breaks, demo)."""
import json, os, re, shutil, subprocess, sys
W = '/tmp/seedwork'
V = '/tmp/dv/seeded'
ENV = dict(os.environ, MPLBACKEND='agg', PYTHONDONTWRITEBYTECODE='1', HOME='/root', PYTHONHASHSEED='0')
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def seed(name, prop, edits, needs, breaks, demo, check=True):
    """edits: [(path under src/glimpse, old, new), ...]"""
    if os.path.exists(W):
        shutil.rmtree(W)
    os.makedirs(W)
    r = W + '/repo'
    sh(f'cp -a /tmp/dr {r}')
    sh(f'git -C {r} checkout -q -- . ; git -C {r} clean -fdq')
    env = dict(ENV, PYTHONPATH=r + '/src')
    d = f'{V}/{name}'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    def fail(msg, out=''):
        print('REJECT', name, msg, out[-1500:], flush=True)
        shutil.rmtree(d)
        return False
    out = sh(f'bash {d}/demo.sh', cwd=r, env=env)
    if out.returncode:
        return fail('demo fails unpatched', out.stdout)
    first = sh('git log --format=%H --reverse | head -1', cwd=r).stdout.strip()
    orig = sh('git log --format=%H --grep="^fix:" --reverse | head -1', cwd=r).stdout.strip()
    for path, old, new in edits:
        p = f'{r}/src/glimpse/{path}'
        s = open(p).read()
        if s.count(old) != 1:
            return fail(f'NOMATCH {s.count(old)} {old[:60]!r}')
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=r).stdout
    # Lines removed must be original
    base = sh(f'git show {orig}^:src/glimpse/{edits[0][0]}', cwd=r).stdout.splitlines()
    gone = [x[1:] for x in diff.splitlines() if x.startswith('-') and not x.startswith('---')]
    mine = [x for x in gone if x.strip() and x not in base]
    if mine:
        print('  WARNING: not original lines:', mine)
    open(d + '/patch.diff', 'w').write(diff)
    out = sh(f'bash {d}/demo.sh', cwd=r, env=env)
    if out.returncode == 0:
        return fail('demo passes patched', out.stdout)
    print('  demo says:', out.stdout.strip().splitlines()[-1][:150] if out.stdout.strip() else '')
    out = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 --continue-on-collection-errors --doctest-modules src tests --disable-warnings -o junit_family=xunit2 --junitxml=/tmp/seedwork/j.xml; python3 /opt/vp/results.py /tmp/seedwork/o.json junit:/tmp/seedwork/j.xml'.replace(' -x ', ' '), cwd=r, env=env)
    t = json.load(open('/tmp/seedwork/o.json'))
    passed = t.get('passed') or t.get('stable_passed') or t.get('tests')
    passed = set(passed if not isinstance(passed, dict) else [k for k, v in passed.items() if v])
    miss = BASE - passed
    if miss or not BASE:
        return fail(f'tests fail {sorted(miss)[:3]} {len(BASE)}')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if check:
        o = sh(f'/tmp/devcheck.sh {r} {prop}')
        cl = set(re.findall(r'"clauses": (\[.*?\])', o.stdout))
        print({0: 'MISSED', 1: 'CAUGHT'}.get(o.returncode, 'ERR'), name, prop, str(cl)[:200] if o.returncode == 1 else o.stdout[-300:], flush=True)
    shutil.rmtree(W)
    return True
