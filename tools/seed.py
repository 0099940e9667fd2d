#!/usr/bin/env python3
"""Plants the bugs described in the given spec files: for each, makes /verif/seeded/<id>/ after
confirming that the patch builds, passes the stable tests, touches base lines, and that the demo
passes without it and fails with it.  seed.py SPEC.py [ID...]   (spec: list BUGS of dicts)"""
import json, os, shutil, subprocess, sys, runpy, tempfile
R='/repo'; S='/verif/seeded'
ENV=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod')
DEMO='''#!/bin/bash
# demonstration: run with the repository as working directory
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
cp "$here"/main.go "$tmp"/ && cp "$repo"/go.sum "$tmp"/ || exit 99
{ sed 's/^module .*/module demo/' "$repo"/go.mod
  echo "require github.com/codeallergy/value v0.0.0"
  echo "replace github.com/codeallergy/value => $repo"; } > "$tmp"/go.mod
cd "$tmp" || exit 99
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
go build %s -o demo . || exit 99
timeout 200 ./demo
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def demo(d, repo):
    r=sh('bash %s/demo.sh' % d, cwd=repo); return r.returncode, (r.stdout+r.stderr)[-600:]
def plant(b):
    bid=b['id']; wt='/tmp/plant/wt'
    shutil.rmtree(wt, ignore_errors=True); sh('cp -a /repo /tmp/plant/wt')
    sh('git checkout -q -- .', cwd=wt)
    for f,old,new in b['edits']:
        p=os.path.join(wt,f); s=open(p).read()
        n=b.get('count',1)
        if s.count(old)<1: return 'FAIL edit text not found in %s: %r'%(f,old)
        if s.count(old)!=1 and not b.get('first'): return 'FAIL %d matches in %s: %r'%(s.count(old),f,old)
        open(p,'w').write(s.replace(old,new,1))
    diff=sh('git diff',cwd=wt).stdout
    # base lines
    base=False; 
    for l in sh('git diff -U0',cwd=wt).stdout.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        if l.startswith('@@'):
            a=l.split()[1][1:].split(','); st=int(a[0]); n=int(a[1]) if len(a)>1 else 1
            if n:
                bl=sh('git blame -s -L %d,+%d HEAD -- %s'%(st,n,cur),cwd=wt).stdout
                if any(x.startswith('^') for x in bl.splitlines()): base=True
                if any(not x.startswith('^') for x in bl.splitlines()): print('   note: touches own line', cur, st, n)
    if sh('go build ./... && go vet .',cwd=wt).returncode:
        r=sh('go build ./...',cwd=wt)
        if r.returncode: return 'FAIL build '+r.stdout+r.stderr
    r=sh('go test -count=1 ./... 2>&1 | tail -25',cwd=wt)
    if not r.stdout.strip().startswith('ok'): return 'FAIL tests\n'+r.stdout
    d=os.path.join('/tmp/plant/seed',bid); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    body=b['demo']
    src='package main\n\nimport (\n\t"github.com/codeallergy/value"\n'+''.join('\t"%s"\n'%i for i in b.get('imports',[]))+')\n\n'+b.get('decl','')+'''
func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}

func main() {
'''+body+'\n}\n'
    open(d+'/main.go','w').write(src)
    r=sh('goimports -w main.go',cwd=d)
    if r.returncode: return 'FAIL goimports '+r.stderr
    open(d+'/demo.sh','w').write(DEMO % ('-race' if b.get('race') else '')); os.chmod(d+'/demo.sh',0o755)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    c,o=demo(d,R)
    if c!=0: return 'FAIL demo on clean tree: %d %s'%(c,o)
    c,o=demo(d,wt)
    if c==0 or c==99: return 'FAIL demo on patched tree: %d %s'%(c,o)
    if sh('git apply --check %s/patch.diff'%d,cwd=R).returncode: return 'FAIL does not apply'
    dst=os.path.join(S if base else '/tmp/plant/extra',bid); shutil.rmtree(dst,ignore_errors=True); shutil.copytree(d,dst)
    return ('OK   demo: ' if base else 'OK (changes no base line, not kept)  demo: ')+o.strip()[:150]
if __name__=='__main__':
    spec=runpy.run_path(sys.argv[1])['BUGS']; only=sys.argv[2:]
    for b in spec:
        if only and b['id'] not in only: continue
        print(b['id'], plant(b), flush=True)
