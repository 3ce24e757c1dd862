#!/usr/bin/env python3
"""Runs the check of each planted bug's property (or --all: every check) against /repo with the bug applied.
Run by hand; always undoes the patch."""
import json,os,subprocess,sys,time
V='/verif'
allp='--all' in sys.argv
ids=[a for a in sys.argv[1:] if a[0]!='-'] or sorted(os.listdir(V+'/seeded'))
props=[f'C{i:02}' for i in range(1,23)]
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
assert not sh('git -C /repo status --porcelain').stdout
for i in ids:
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    try:
        r=sh(f'git -C /repo apply {V}/seeded/{i}/patch.diff'); assert r.returncode==0,r.stderr
        hit=[];t=time.time();why=''
        for p in (props if allp else [m['property']]):
            r=sh(f'RSIM_OUT=/tmp/scratch/out VERIF_TIER=quick bash {V}/check.sh {p}')
            o=r.stdout+r.stderr
            if r.returncode==1 and f'VIOLATION property={p}' in o: hit.append(p)
            elif r.returncode!=0: hit.append(f'{p}?{r.returncode}')
            if p==m['property']: why=[l for l in o.split('\n') if l.strip()][-3:]
        print(i,m['property'],'CAUGHT' if m['property'] in hit else 'MISSED',hit if allp else '',f'{time.time()-t:.0f}s', '' if m['property'] in hit else why,flush=True)
    finally:
        sh('git -C /repo checkout -- .')
