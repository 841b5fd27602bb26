#!/usr/bin/env python3
"""countable.py: which seeded changes touch lines of the original repository (blame cd222fa), as vcheck wants."""
import subprocess, re, os, glob, shutil
W='/tmp/plant/crepo'
shutil.rmtree(W,ignore_errors=True); os.makedirs('/tmp/plant',exist_ok=True)
subprocess.run(['cp','-a','/repo',W],check=True)
run=lambda *a: subprocess.run(a,cwd=W,stdout=subprocess.PIPE,text=True).stdout
blame={}
def base(f):
    if f not in blame:
        blame[f]=[l.startswith('^cd222fa') or l.startswith('cd222fa') for l in run('git','blame','-s','HEAD','--',f).splitlines()]
    return blame[f]
first=run('git','rev-list','--max-parents=0','HEAD').strip()
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    run('git','checkout','-q','--','.'); run('git','apply',p)
    ok=False; f=None
    for l in run('git','diff','-U0').splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m:
            b=base(f); at,n=int(m[1]),int(m[2] or 1)
            old=[b[x-1] for x in (range(at,at+n) if n else (at,at+1)) if 1<=x<=len(b)]
            ok|=bool(old) and (any(old) if n else all(old))
    if not ok: print('does not count:',p.split('/')[3])
