#!/usr/bin/env python3
"""Run every check against every planted bug (in /repo, restored after each)
and record in tools/caught.json which report it."""
import json,os,subprocess,sys,shutil
from concurrent.futures import ThreadPoolExecutor
V='/verif'; S=V+'/seeded'; J=V+'/tools/caught.json'
old=json.load(open(J)) if os.path.exists(J) else {}
man=json.load(open(V+'/MANIFEST.json'))
ids=[c['property'] if 'property' in c else c['property_id'] for c in man['checks']] if 'checks' in man else []
ids=ids or ["C%02d"%i for i in range(1,32) if i!=30]
only=os.environ.get('ONLY','').split()
ck=os.environ.get('CK','/tmp/ck'); root='/tmp/ckroot'
shutil.copy(V+'/known_findings.json',root)
def run(p):
    r=subprocess.run([ck,'-property',p,'-root',root],capture_output=True,text=True)
    return p,r.returncode,'VIOLATION property='+p in r.stdout
for b in sorted(os.listdir(S)):
    if only and b not in only: continue
    if not only and b in old and '-a' not in sys.argv: continue
    if subprocess.run(['git','-C','/repo','apply',f'{S}/{b}/patch.diff']).returncode: print(b,'NOT APPLIED'); continue
    try:
        with ThreadPoolExecutor(4) as ex: res=list(ex.map(run,ids))
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    old[b]=[p for p,rc,v in res if rc==1 and v]
    odd=[(p,rc) for p,rc,v in res if rc not in(0,1)]
    own=json.load(open(f'{S}/{b}/meta.json'))['property']
    print(b,own,'CAUGHT' if own in old[b] else 'MISSED',old[b],odd,flush=True)
    json.dump({k:old[k] for k in sorted(old) if os.path.isdir(f'{S}/{k}')},open(J,'w'),indent=1)
