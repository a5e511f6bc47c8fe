"""mut.py: run checks against textual mutations, each in its own copy of src.
usage: from mut import m, go; m('file', old, new, 'C01', ...); go()"""
import subprocess, sys, time, os, re, shutil, tempfile, concurrent.futures as cf
JOBS=[]
def m(path, old, new, *ids, count=1, label=''):
    s=open('/tmp/dr/src/glimpse/'+path).read()
    n=s.count(old)
    if n<1 or (n!=1 and count==1): print('NOMATCH',n,repr(old)[:80]); return
    for i in ids: JOBS.append((path, s.replace(old,new), i, new))
def one(job):
    path, text, i, new = job
    d=tempfile.mkdtemp(prefix='mutrepo_', dir='/tmp')
    t=time.time()
    try:
        shutil.copytree('/tmp/dr/src', d+'/src'); os.symlink('/tmp/dr/tests', d+'/tests')
        open(d+'/src/glimpse/'+path,'w').write(text)
        r=subprocess.run(['/tmp/devcheck.sh',d,i],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    finally:
        shutil.rmtree(d)
    mm=re.findall(r'"clauses": (\[.*?\])',r.stdout)
    print({0:'MISS',1:'caught'}.get(r.returncode,'ERR%d'%r.returncode),i,repr(new)[:90],set(mm) if r.returncode==1 else r.stdout[-600:] if r.returncode else '', '%.0fs'%(time.time()-t),flush=True)
def go(n=4):
    with cf.ThreadPoolExecutor(n) as ex: list(ex.map(one, JOBS))
    JOBS.clear()
