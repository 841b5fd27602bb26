#!/usr/bin/env python3
"""plant.py FILE.py...: each defines BUGS, a list of dicts with id, property, needs, breaks, edits [(file, old, new)],
and demo (Go source) or sh (shell script). Validates each in a scratch copy of /repo and writes /verif/seeded/<id>/."""
import sys, os, subprocess, shutil, json, runpy
only = [a for a in sys.argv[1:] if not a.endswith('.py')]
W = '/tmp/plant/repo'
T = '/verif/tools'
os.environ.update(PATH='/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOFLAGS='-mod=readonly')
def sh(c, cwd=W, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    return sh('goyacc -o xdr.go -p xdr xdr.y >/dev/null && go build ./... && go vet . ./rfc1057 ./xdr >/dev/null 2>&1; go build ./...')
def tests(): return sh('go test ./... 2>&1')
shutil.rmtree(W, ignore_errors=True); os.makedirs('/tmp/plant', exist_ok=True)
subprocess.run(['cp','-a','/repo',W],check=True)
for f in [a for a in sys.argv[1:] if a.endswith('.py')]:
    for b in runpy.run_path(f)['BUGS']:
        if only and b['id'] not in only: continue
        D = '/tmp/plant/'+b['id']; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        if 'demo' in b:
            shutil.copy(T+'/seeded_go.sh', D+'/demo.sh'); shutil.copy(T+'/seeded_util.go', D+'/util.go')
            open(D+'/demo.go','w').write('package main\n'+b['demo'])
            subprocess.run('gofmt -w '+D+'/demo.go', shell=True)
        else:
            open(D+'/demo.sh','w').write(b['sh'])
            for n,c in b.get('files',{}).items(): open(D+'/'+n,'w').write(c)
        os.chmod(D+'/demo.sh',0o755)
        json.dump({"property":b['property'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(D+'/meta.json','w'),indent=1)
        sh('git checkout -q -- .'); build()
        r = sh(D+'/demo.sh')
        if r.returncode: print(b['id'],'BASE DEMO FAILS\n',r.stdout[-1500:]); continue
        bad=False
        for (fn,old,new) in b['edits']:
            s=open(W+'/'+fn).read()
            if s.count(old)!=1: print(b['id'],'EDIT matches',s.count(old),repr(old)); bad=True; break
            open(W+'/'+fn,'w').write(s.replace(old,new))
        if bad: continue
        sh('gofmt -w '+' '.join(f for f,_,_ in b['edits'] if f.endswith('.go')))
        diff=subprocess.run('git diff',shell=True,cwd=W,stdout=subprocess.PIPE,text=True).stdout
        open(D+'/patch.diff','w').write(diff)
        r=build()
        if r.returncode: print(b['id'],'BUILD FAILS\n',r.stdout[-1500:]); continue
        r=tests()
        if r.returncode: print(b['id'],'TESTS FAIL\n',r.stdout[-1500:]); continue
        r=sh(D+'/demo.sh')
        if r.returncode==0: print(b['id'],'DEMO PASSES WITH BUG'); continue
        if r.returncode==2 and "DEMO" not in r.stdout and "panic:" not in r.stdout: print(b["id"],"?? demo rc 2",r.stdout[-800:]); continue
        X='/verif/seeded/'+b['id']; shutil.rmtree(X, ignore_errors=True); shutil.copytree(D,X)
        print(b['id'],'ok:',r.stdout.strip().split('\n')[-1][:150])
sh('git checkout -q -- .')
