#!/usr/bin/env python3
"""Plant and confirm bugs.  tools/seed.py make ID < spec   (spec: python dict literal)
   tools/seed.py confirm ID...   (scratch copy: demo ok on base, patch builds, stable tests pass, demo fails)
   tools/seed.py run ID [CHECK...] (apply to /repo, run quick checks, undo)"""
import sys, os, json, subprocess, shutil, ast
V='/verif'; S='/tmp/seedwork'
DEMO='''#!/bin/bash
# exit 0 iff the demonstration's assertions hold on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
schemars = { path = "$repo/schemars"%s }
serde = { version = "1", features = ["derive"] }
serde_json = { version = "1"%s }
X
CARGO_TARGET_DIR="$t/target" cargo run -q --offline --manifest-path "$t/Cargo.toml"
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def scratch():
    if not os.path.exists(S): sh(f'mkdir -p {S} && cp -a /repo {S}/repo')
    r=f'{S}/repo'
    sh(f'cd {r} && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq')
    return r
def make(i,d):
    r=scratch()
    for f,o,n in d['edits']:
        p=f'{r}/{f}'; s=open(p).read(); assert s.count(o)==1,(f,s.count(o),o); open(p,'w').write(s.replace(o,n))
    out=f'{V}/seeded/{i}'; os.makedirs(out,exist_ok=True)
    open(f'{out}/patch.diff','w').write(subprocess.run(['git','-C',r,'diff'],stdout=subprocess.PIPE,text=True).stdout)
    open(f'{out}/main.rs','w').write(d['demo'])
    feats=d.get('features',[]); fs=', features = '+json.dumps(feats) if feats else ''
    open(f'{out}/demo.sh','w').write(DEMO%(fs, ', features = ["preserve_order"]' if 'preserve_order' in feats else '')); os.chmod(f'{out}/demo.sh',0o755)
    json.dump({'property':d['property'],'needs':d['needs'],'what_it_breaks':d['what']},open(f'{out}/meta.json','w'),indent=1)
    # no line added by our own commits may be touched
    base=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],stdout=subprocess.PIPE,text=True).stdout.strip()
    for f in {e[0] for e in d['edits']}:
        orig=set(subprocess.run(['git','-C','/repo','show',f'{base}:{f}'],stdout=subprocess.PIPE,text=True).stdout.splitlines())
        for l in open(f'{out}/patch.diff'):
            if l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\n') not in orig: print('WARNING line not original:',l)
def confirm(i):
    r=scratch(); d=f'{V}/seeded/{i}'; tmp=f'{S}/d'; sh(f'rm -rf {tmp}; mkdir -p {tmp}; cp {d}/main.rs {d}/demo.sh {tmp}/')
    a=sh(f'cd {r} && bash {tmp}/demo.sh'); ok=True
    if a.returncode: print(i,'DEMO FAILS ON BASE\n',a.stdout[-3000:]); ok=False
    p=sh(f'cd {r} && git apply {d}/patch.diff')
    if p.returncode: print(i,'PATCH',p.stdout); return False
    b=sh(f'cd {r} && bash {tmp}/demo.sh')
    if b.returncode==0: print(i,'DEMO PASSES WITH PATCH'); ok=False
    elif 'error: could not compile' in b.stdout: print(i,'DEMO COMPILE\n',b.stdout[-3000:])
    else: print(i,'demo:',[l for l in b.stdout.splitlines() if 'panicked' in l or 'Error' in l or 'overflow' in l][:2])
    # tests: run in place of /repo? tests run from a script bound to /repo, so apply there and undo
    sh(f'git -C /repo apply {d}/patch.diff')
    try:
        sh('bash /opt/vp/build.sh'); t=sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        t=json.load(open('/tmp/seedtest.json')); B=json.load(open('/opt/vp/BASELINE.json'))
        passed=set(t.get('passed',[])); miss=[x for x in B['stable'] if x not in passed]
        if miss: print(i,'TESTS FAIL',miss[:8]); ok=False
    finally: sh('git -C /repo checkout -- . ; bash /opt/vp/build.sh')
    print(i,'confirmed' if ok else 'NOT confirmed'); return ok
def run(i,checks):
    d=f'{V}/seeded/{i}'; checks=checks or [json.load(open(f'{d}/meta.json'))['property']]
    sh(f'git -C /repo apply {d}/patch.diff')
    try:
        for c in checks:
            p=sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3 bin/check.py {c}')
            print(i,c,'exit',p.returncode,[l for l in p.stdout.splitlines() if l.startswith('VIOLATION')][:2], '' if p.returncode==1 else p.stdout[-600:])
    finally: sh('git -C /repo checkout -- .')
if __name__=='__main__':
    m=sys.argv[1]
    if m=='make':
        for i,d in ast.literal_eval(sys.stdin.read()).items(): make(i,d)
    elif m=='confirm': sys.exit(not all([confirm(i) for i in sys.argv[2:]]))
    else: run(sys.argv[2],sys.argv[3:])
