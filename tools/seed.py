#!/usr/bin/env python3
"""Build and validate planted bugs: tools/seed.py [id...]  (specs in tools/seeds.py)"""
import sys,os,subprocess,json,shutil
sys.path.insert(0,os.path.dirname(__file__))
import seeds
S='/tmp/seedrepo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
env=". /opt/vp/env.sh; "
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO='''#!/bin/bash
# exits 0 when the property holds on this tree, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
root=$(pwd)
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$root" "$here" > "$t/overlay.json"
go test -count=1 -vet=off -timeout 120s -overlay "$t/overlay.json" -run 'TestZZDemo' ./PKG FLAGS
'''
ids=sys.argv[1:]
for s in seeds.SEEDS:
    if ids and s['id'] not in ids: continue
    d='/verif/seeded/'+s['id']
    if not ids and os.path.exists(d): continue
    shutil.rmtree(S,ignore_errors=True)
    sh(f'git clone -q /repo {S}')
    os.makedirs(d,exist_ok=True)
    open(d+'/demo.sh','w').write(DEMO.replace('PKG',s['pkg']).replace('FLAGS',s.get('flags','')))
    open(d+'/demo_test.go','w').write(s['demo'].lstrip('\n'))
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['what']},open(d+'/meta.json','w'),indent=1,ensure_ascii=False)
    r0=sh(f'bash {d}/demo.sh',cwd=S)
    ok=True
    for f,a,b in s['edits']:
        t=open(f'{S}/{f}').read()
        n=t.count(a)
        if n<1: print(s['id'],'NO MATCH',f,a[:60]); ok=False; break
        t=t.replace(a,b,1) if not s.get('all') else t.replace(a,b)
        open(f'{S}/{f}','w').write(t)
    if not ok: shutil.rmtree(d); continue
    diff=sh('git diff',cwd=S).stdout
    open(d+'/patch.diff','w').write(diff)
    b=sh(env+f'cd {S} && gofmt -l $(git diff --name-only); go build ./... && go vet ./... 2>&1 | tail -3')
    r1=sh(f'bash {d}/demo.sh',cwd=S)
    # run repo tests with the patch, in place
    sh(f'git -C /repo apply {d}/patch.diff')
    t=sh('bash /opt/vp/test.sh /tmp/seedout.json')
    sh('git -C /repo checkout -- .')
    try:
        passed=set(json.load(open('/tmp/seedout.json'))['passed'])
        miss=sorted(base-passed)
    except Exception as e: miss=[str(e)]
    c=sh(f'VERIF_DIR=/tmp/vd VERIF_REPO={S} bash /tmp/r.sh {s["prop"]}')
    caught=f'VIOLATION property={s["prop"]}' in c.stdout
    print(s['id'],s['prop'],'| base demo',r0.returncode,'| build',b.returncode,b.stdout.strip()[-200:],b.stderr[-300:],'| demo',r1.returncode,'| tests missing',miss[:3],'| caught',caught)
    if r0.returncode: print(r0.stdout[-600:],r0.stderr[-300:])
    if r1.returncode==0: print('   demo did not fail')
    for l in c.stdout.splitlines():
        if ': rule' in l: print('      ',l[:220])
shutil.rmtree(S,ignore_errors=True)
