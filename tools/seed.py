#!/usr/bin/env python3
"""seed.py spec.py : defines seeds; each: id, prop, file edits [(file, old, new)], demo (go source body), needs, breaks, pkg"""
import sys, os, json, subprocess, shutil
ns={}
exec(open(sys.argv[1]).read(), ns)
only=set(sys.argv[2:])
env=dict(os.environ)
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
tmpl=open('/verif/tools/demo.sh.tmpl').read()
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']
    w='/tmp/seedrepo'
    shutil.rmtree(w,ignore_errors=True); shutil.copytree('/repo',w,symlinks=True)
    os.makedirs(d,exist_ok=True)
    pkg=s.get('pkg','.')
    src=s['demo']
    if not src.lstrip().startswith('package'):
        src='package htmltomarkdown_test\n\nimport (\n\t"testing"\n'+''.join('\t%s\n'%i for i in s.get('imports',[]))+'\n)\n\n'+src
    open(d+'/demo_test.go','w').write(src)
    open(d+'/demo.sh','w').write(tmpl.replace('@PKG@/',('' if pkg=='.' else pkg+'/')).replace('@PKG@','.' if pkg=='.' else pkg)); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    r=sh(d+'/demo.sh',w)
    if r.returncode!=0: print(s['id'],'DEMO FAILS ON CLEAN',r.stdout[-1500:]); continue
    ok=True
    for f,a,b in s['edits']:
        t=open(w+'/'+f).read()
        if t.count(a)!=1: print(s['id'],'EDIT count',t.count(a),repr(a)); ok=False; break
        open(w+'/'+f,'w').write(t.replace(a,b))
    if not ok: continue
    sh('gofmt -l .',w)
    r=sh('git diff',w); open(d+'/patch.diff','w').write(r.stdout)
    r=sh('export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off PATH=/opt/veriftools/go1.27.3/bin:$PATH; go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v "^ok\\|no test files"',w,executable='/bin/bash')
    if 'FAIL' in r.stdout or 'error' in r.stdout: print(s['id'],'TESTS FAIL',r.stdout[-2500:]); continue
    r=sh(d+'/demo.sh',w)
    if r.returncode==0: print(s['id'],'DEMO PASSES WITH BUG'); continue
    if os.environ.get('NOCHECK'): print(s['id'],'valid'); continue
    r=sh('REPO_DIR=%s VERIF_TIER=quick VERIF_SEED=1 timeout 890 /verif/run.sh %s'%(w,s['prop']),'/verif')
    v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print(s['id'],s['prop'],'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode, v[:2])
shutil.rmtree('/tmp/seedrepo',ignore_errors=True)
