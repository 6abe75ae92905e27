#!/usr/bin/env python3
"""seed.py SPEC.py...  makes and confirms planted bugs (see DESIGN.md).
A spec sets ID, PROPERTY, PKG, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO (Go test with TestDemo)."""
import sys,os,json,subprocess,tempfile
DEMO_SH='''#!/bin/bash
# Runs demo_test.go inside package @PKG@ of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export SARDIR=$work/sardir
mkdir "$SARDIR"
# sarnet needs a constant that linux/amd64 lacks: build it from a copy that has the number.
sed 's/syscall\\.SO_REUSEPORT/0xf/' sarnet/sarnet.go > "$work/sarnet.go"
python3 - "$PWD" "$here" "$work" <<'P' || exit 1
import json, sys
repo, here, work = sys.argv[1:]
o = json.load(open("/opt/vp/gomod/overlay.json"))
o["Replace"][repo + "/sarnet/sarnet.go"] = work + "/sarnet.go"
o["Replace"][repo + "/@PKG@/zz_demo_test.go"] = here + "/demo_test.go"
json.dump(o, open(work + "/overlay.json", "w"))
P
export GOFLAGS=-overlay=$work/overlay.json
timeout 200 go test @RACE@-vet=off -count=1 -run '^TestDemo$' -timeout 120s "$MOD/@PKG@"
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def one(path):
    g={}
    exec(open(path).read(),g)
    only=os.environ.get('ONLY','').split()
    for x in g.get('SPECS',[g]):
        if not only or x['ID'] in only: plant(x)
def plant(g):
    d='/verif/seeded/'+g['ID']
    os.makedirs(d,exist_ok=True)
    if sh('git -C /repo status --porcelain').stdout.strip(): print('REPO DIRTY'); sys.exit(1)
    open(d+'/demo.sh','w').write(DEMO_SH.replace('@PKG@',g['PKG']).replace('@RACE@','-race ' if g.get('RACE') else ''))
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(g['DEMO'].lstrip('\n'))
    json.dump({"property":g['PROPERTY'],"needs":g['NEEDS'],"what_it_breaks":g['BREAKS']},open(d+'/meta.json','w'),indent=1)
    r=sh('bash %s/demo.sh'%d,cwd='/repo')
    print(g['ID'],'clean demo rc',r.returncode)
    if r.returncode: print(r.stdout[-2500:],r.stderr[-1500:])
    try:
        for f,o,n in g['EDITS']:
            s=open('/repo/'+f).read()
            if s.count(o)<1: print('EDIT NOT FOUND',f,o); return
            if s.count(o)>1: print('  edit ambiguous, first used',f)
            open('/repo/'+f,'w').write(s.replace(o,n,1))
        open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
        r=sh('bash /opt/vp/build.sh'); print('  build rc',r.returncode, r.stderr[-800:] if r.returncode else '')
        sh('bash /opt/vp/test.sh /tmp/seedout.json'); t=json.load(open('/tmp/seedout.json'))
        txt=json.dumps(t)
        base=json.load(open('/opt/vp/BASELINE.json'))['stable']
        ps=t.get('passed') or t.get('pass') or []
        print('  tests ok', all(x in ps for x in base))
        r=sh('bash %s/demo.sh'%d,cwd='/repo')
        print('  patched demo rc',r.returncode, '' if r.returncode==0 else '\n'.join(r.stdout.splitlines()[:4])[:400])
        for p in g.get('ALSO',[])+[g['PROPERTY']]:
            r=sh('timeout 900 /tmp/ck -property %s -root /tmp/ckroot'%p)
            print('  check',p,'rc',r.returncode,'CAUGHT' if r.returncode==1 and 'VIOLATION property='+p in r.stdout else 'MISSED'); print('\n'.join('     '+x[:300] for x in r.stdout.splitlines()[:2]))
    finally:
        sh('git -C /repo checkout -- .')
for p in sys.argv[1:]: one(p)
