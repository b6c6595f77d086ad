#!/usr/bin/env python3
"""Development tool for planted changes.
seed.py make <id>   : kit files + /repo's working-tree diff -> seeded/<id> (main.rs and meta.json must exist there)
seed.py test <id>   : confirm: demo passes on the clean tree; with the patch it builds, the tests pass, the demo fails
seed.py check <id> [props...] : run the property's check (or the given ones) with the patch applied
"""
import sys, os, subprocess, shutil, json, re, glob
V='/verif'; R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
def clean():
    assert sh(f'git -C {R} status --porcelain').stdout.strip()=='', 'repo dirty'
def kit(i):
    d=f'{V}/seeded/{i}'
    src=open(f'{d}/main.rs').read()
    for f in ('chain','world'): shutil.copy(f'{V}/harness/src/{f}.rs',f'{d}/{f}.rs')
    shutil.copy(f'{V}/harness/Cargo.lock',f'{d}/Cargo.lock')
    shutil.copy(f'{V}/tools/demokit/demo.sh',f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh',0o755)
    os.makedirs(f'{d}/tracker',exist_ok=True)
    shutil.copy(f'{V}/tools/demokit/tracker/Cargo.toml',f'{d}/tracker/Cargo.toml')
    w=open(f'{d}/world.rs').read()
    if 'codes::staking' not in src:
        w=re.sub(r'    pub fn staking\(\) -> Code \{.*?\n    \}\n','',w,flags=re.S)
        open(f'{d}/world.rs','w').write(w)
    t=[]
    code=src+w
    for l in open(f'{V}/tools/demokit/Cargo.toml'):
        m=re.match(r'(astro[\w-]*) = ',l)
        if m and m.group(1)!='astroport' and m.group(1).replace('-','_') not in code: continue
        t.append(l)
    open(f'{d}/Cargo.toml','w').write(''.join(t))
def make(i):
    d=f'{V}/seeded/{i}'
    p=sh(f'git -C {R} diff').stdout
    if p.strip(): open(f'{d}/patch.diff','w').write(p)
    kit(i)
    sh(f'git -C {R} checkout -- .')
def demo(i):
    r=sh(f'bash {V}/seeded/{i}/demo.sh',cwd=R,timeout=600)
    return r.returncode,(r.stdout+r.stderr)[-600:]
def test(i):
    clean(); d=f'{V}/seeded/{i}'
    import time
    t=time.time(); c,o=demo(i); print('clean demo:',c,o.strip()[-300:],f'{time.time()-t:.0f}s')
    if c!=0: return
    r=sh(f'git -C {R} apply {d}/patch.diff')
    assert r.returncode==0,r.stderr
    try:
        r=sh('bash /opt/vp/build.sh'); print('build',r.returncode, r.stderr[-800:] if r.returncode else '')
        if r.returncode: return
        r=sh('bash /opt/vp/test.sh /tmp/t.json'); 
        base=json.load(open('/opt/vp/BASELINE.json')); 
        print('tests',r.returncode,(r.stdout+r.stderr)[-200:].strip())
        c,o=demo(i); print('patched demo:',c,o.strip()[-600:])
    finally:
        sh(f'git -C {R} apply -R {d}/patch.diff'); clean()
def check(i,props):
    clean(); d=f'{V}/seeded/{i}'
    props=props or [json.load(open(f'{d}/meta.json'))['property']]
    r=sh(f'git -C {R} apply {d}/patch.diff'); assert r.returncode==0,r.stderr
    try:
        for p in props:
            r=sh(f'VERIF_SEED=1 timeout 900 bash run.sh {p} quick',cwd=V); print(p,'exit',r.returncode,'|',(r.stdout+r.stderr)[:700])
    finally:
        sh(f'git -C {R} apply -R {d}/patch.diff'); clean()
a=sys.argv
if a[1]=='make': make(a[2])
elif a[1]=='kit': kit(a[2])
elif a[1]=='test': test(a[2])
elif a[1]=='check': check(a[2],a[3:])
elif a[1]=='all':
    for x in a[2:]: make(x) if not os.path.exists(f'{V}/seeded/{x}/patch.diff') else None; print('==',x); test(x); check(x,[])
