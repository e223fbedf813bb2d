#!/usr/bin/env python3
# usage: mk.py defs.py [ids...]  builds /verif/seeded/<id> after confirming each in a scratch copy
import sys,os,subprocess,json,shutil,importlib.util
spec=importlib.util.spec_from_file_location('defs',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
WT='/tmp/wt'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0 when the behaviour holds, 1 when it does not
d="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
r="$(pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$r/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 %(extra)s-timeout 120s -run '^TestZZDemo$' ./%(pkg)s
'''
for d in m.D:
    if len(sys.argv)>2 and d['id'] not in sys.argv[2:]: continue
    os.path.isdir(WT) and shutil.rmtree(WT)
    sh(f'cp -a /repo {WT}')
    ok=True
    for f,old,new in d['edits']:
        p=f'{WT}/{f}'; s=open(p).read()
        if s.count(old)<1: print(d['id'],'NO MATCH',f,old[:60]); ok=False; break
        s=s.replace(old,new,d.get('n',1)); open(p,'w').write(s)
    if not ok: continue
    out=f'/verif/seeded/{d["id"]}'
    tmp=f'/tmp/seed/out/{d["id"]}'
    os.path.isdir(tmp) and shutil.rmtree(tmp)
    os.makedirs(tmp)
    diff=sh(f'git -C {WT} diff').stdout
    open(tmp+'/patch.diff','w').write(diff)
    open(tmp+'/demo_test.go','w').write(d['test'].lstrip())
    open(tmp+'/demo.sh','w').write(DEMO%dict(pkg=d['pkg'],extra=d.get('extra','')))
    json.dump(dict(property=d['prop'],needs=d['needs'],what_it_breaks=d['breaks']),open(tmp+'/meta.json','w'),indent=1)
    env=f'. /opt/vp/env.sh; cd {WT}; '
    b=sh(env+'gofmt -l $(git diff --name-only | grep go$); go build ./... && go vet ./... 2>&1 | head -3')
    if b.returncode: print(d['id'],'BUILD',b.stderr[:400]); continue
    t=sh(env+'go test ./... 2>&1 | grep -v "no test files" | grep -v ^ok')
    if 'FAIL' in t.stdout: print(d['id'],'CAUGHT BY TESTS',[l for l in t.stdout.split("\n") if '--- FAIL' in l][:3]); continue
    bad=sh(f'cd {WT} && bash {tmp}/demo.sh')
    good=sh(f'cd /repo && bash {tmp}/demo.sh')
    if good.returncode!=0: print(d['id'],'DEMO FAILS ON CLEAN',good.stdout[-600:],good.stderr[-300:]); continue
    if bad.returncode==0: print(d['id'],'DEMO PASSES ON BUG'); continue
    if '[build failed]' in bad.stdout: print(d['id'],'demo build failed',bad.stdout[-300:]); continue
    os.path.isdir(out) and shutil.rmtree(out)
    shutil.copytree(tmp,out)
    print(d['id'],'OK', b.stdout.strip())
