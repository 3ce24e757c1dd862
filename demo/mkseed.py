#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from plants.py and checks each: the patch applies and builds, the stable
tests pass with it, the demonstration passes without and fails with it.  Run by hand.
usage: mkseed.py [--novet] id..."""
import json,os,subprocess,sys,shutil,difflib
sys.path.insert(0,'/verif/demo')
import plants
V='/verif'; WT='/tmp/scratch/wt'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
ids=[a for a in sys.argv[1:] if a[0]!='-'] or [i for i in plants.P if i not in plants.UNCOUNTED]
if not os.path.isdir(WT):
    os.makedirs('/tmp/scratch',exist_ok=True)
    sh(f'git -C /repo worktree prune; cp -a /repo {WT}')
sh(f'git -C {WT} checkout -q -- . && git -C {WT} pull -q /repo HEAD; git -C {WT} reset -q --hard $(git -C /repo rev-parse HEAD)')
head=sh(f'git -C {WT} rev-parse HEAD').stdout
assert head==sh('git -C /repo rev-parse HEAD').stdout, head
for i in ids:
    p=plants.P[i]
    d=f'{V}/seeded/{i}'
    os.makedirs(d,exist_ok=True)
    for f in os.listdir(d): os.unlink(f'{d}/{f}')
    js=p['demo'].lstrip().startswith('//js')
    if js:
        for f in ('index.js','serializers.js'): shutil.copy(f'{V}/sim/js/umi/{f}',d)
        for f in ('demo.sh','lib.mjs'): shutil.copy(f'{V}/demo/js/{f}',d)
        open(f'{d}/main.mjs','w').write("import fs from 'node:fs';\nimport { client, umi, programs, key, signer, ctx, equal } from './lib.mjs';\n"+p['demo'].strip('\n')+"\nconsole.log('as it must be');\n")
    for f in (() if js else ('bank.rs','wire.rs','keys.rs')+tuple(p.get('files',()))): shutil.copy(f'{V}/sim/src/{f}',d)
    for f in (() if js else ('h.rs','trace.rs','demo.sh','Cargo.toml.demo','Cargo.lock.demo')): shutil.copy(f'{V}/demo/{f}',d)
    os.chmod(f'{d}/demo.sh',0o755)
    body=p['demo'].strip('\n')
    head=open(f'{V}/demo/main_head.rs').read()
    for f in p.get('files',()): head=head.replace('mod bank;','mod bank;\nmod %s;'%f[:-3])
    if not js: open(f'{d}/main.rs','w').write(head+'fn main() {\n'+'\n'.join('    '+l if l else l for l in body.split('\n'))+'\n    println!("as it must be");\n}\n')
    sh(f'git -C {WT} checkout -q -- .')
    bad=False
    for (f,a,b) in p['edits']:
        q=f'{WT}/{f}'; s=open(q).read()
        if s.count(a)!=1: print(i,'EDIT does not match once:',f,s.count(a)); bad=True; break
        open(q,'w').write(s.replace(a,b))
    if bad: continue
    diff=sh(f'git -C {WT} diff').stdout
    open(f'{d}/patch.diff','w').write(diff)
    json.dump({'property':p['property'],'needs':p['needs'],'what_it_breaks':p['breaks']},open(f'{d}/meta.json','w'),indent=1)
    # lines removed or changed must be original ones
    if '--novet' in sys.argv: continue
    r=sh(f'cd /repo && DEMO_TARGET=/tmp/scratch/dt {d}/demo.sh')
    ok0=r.returncode==0
    if not ok0: print(i,'demo FAILS on the unchanged tree',r.returncode,r.stdout[-1500:],r.stderr[-1500:]); continue
    r=sh(f'cd {WT} && DEMO_TARGET=/tmp/scratch/dt2 {d}/demo.sh')
    if r.returncode==0: print(i,'demo PASSES with the patch'); continue
    why=(r.stdout+r.stderr).strip().split('\n')[-1][:160]
    if r.returncode==2: print(i,'does not build',r.stdout[-1500:]); continue
    r=sh(f'. /opt/vp/env.sh; cd {WT} && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/tmp/scratch/tt cargo test --offline -p mplx-rewards --lib 2>&1 | grep -E "test result|FAILED|panicked|^error"',executable='/bin/bash')
    t=r.stdout.strip().replace('\n',' | ')
    print(i,p['property'],'ok; fails with:',why,'; tests:',t[:200])
sh(f'git -C {WT} checkout -q -- .')
