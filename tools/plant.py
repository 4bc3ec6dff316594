#!/usr/bin/env python3
"""plant.py <spec.py>...: build planted bugs (scratch copy /tmp/seed/wt) and keep the confirmed ones under /verif/seeded.
A spec is a python file with BUGS = [dict(id, prop, edits=[(file, old, new[, nth])], prog, expect, flags, needs, breaks, demo=None)]"""
import subprocess, sys, os, json, shutil, runpy
SEEDED=os.environ.get('SEEDED','/verif/seeded'); WT='/tmp/seed/wt'; ENV={**os.environ,'RUSTUP_TOOLCHAIN':'nightly-2024-05-01','CARGO_NET_OFFLINE':'true','CARGO_TERM_COLOR':'never','CARGO_INCREMENTAL':'1','CARGO_PROFILE_DEV_DEBUG':'line-tables-only'}
def sh(c,cwd=WT,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,errors='replace',env=ENV,**k)
def sync():
    if not os.path.exists(WT): subprocess.run(['cp','-a','/repo',WT],check=True)
    head=sh('git rev-parse HEAD','/repo').stdout.strip()
    sh('git fetch -q /repo && git checkout -qf '+head+' && git clean -fdq -e target')
def build(): r=sh('cargo build --workspace --offline --locked'); return r.returncode==0, r.stderr[-1500:]
def tests():
    r=sh('cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 > /tmp/seed/log 2>&1')

    sh('python3 /opt/vp/results.py /tmp/seed/out.json cargo:/tmp/seed/log')
    b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/out.json'))
    f=lambda x: set(next((v if isinstance(v,list) else [n for n,s in v.items() if s in('pass','passed',True)]) for k,v in x.items() if k in('passed','pass','stable','tests')))
    return f(b)-f(o)
DEMO='''#!/bin/bash
# runs a program in the command line tool and compares what it prints with what the language defines
d="$(cd "$(dirname "$0")" && pwd)"
for f in FLAGS; do
  [ "$f" = none ] && f=
  out="$(timeout 20 ./target/debug/cordy $f "$d/prog.cor" 2>&1 </dev/null)"
  if [ "$out" != "$(cat "$d/expect.txt")" ]; then echo "got:"; echo "$out"; exit 1; fi
done
exit 0
'''
def one(b):
    d=SEEDED+'/'+b['id']; os.makedirs(d,exist_ok=True)
    sync()
    for e in b['edits']:
        p=os.path.join(WT,e[0]); s=open(p).read(); n=e[3] if len(e)>3 else 0
        parts=s.split(e[1])
        if len(parts)<2+n: print(b['id'],'NOT FOUND',e[1][:60]); return False
        if len(e)<=3 and len(parts)!=2: print(b['id'],'AMBIGUOUS',len(parts)-1,e[1][:60]); return False
        s=e[1].join(parts[:n+1])+e[2]+e[1].join(parts[n+1:]); open(p,'w').write(s)
    open(d+'/patch.diff','w').write(sh('git diff').stdout)
    base=subprocess.run("git log --format=%h --reverse | head -1",shell=True,cwd='/repo',capture_output=True,text=True).stdout.strip()
    for e in b['edits']:
        old=subprocess.run(['git','show',base+':'+e[0]],cwd='/repo',capture_output=True,text=True).stdout.split('\n')
        for l in e[1].split('\n'):
            if l.strip() and l not in e[2].split('\n') and not any(l in o for o in old): print(b['id'],'NOTE: not an original line:',l.strip()[:80])
    sh('git checkout -q -- .')
    if b.get('demo'):
        open(d+'/demo.sh','w').write(b['demo'])
        for k,v in b.get('files',{}).items(): open(d+'/'+k,'w').write(v)
    else:
        open(d+'/demo.sh','w').write(DEMO.replace('FLAGS',b.get('flags','none -o')))
        open(d+'/prog.cor','w').write(b['prog'].lstrip('\n')); open(d+'/expect.txt','w').write(b['expect'].strip('\n')+'\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    ok,l=build()
    r=sh('bash '+d+'/demo.sh',timeout=300)
    if r.returncode!=0: print(b['id'],'demo fails on the clean tree',r.stdout[-800:]); shutil.rmtree(d); return False
    a=sh('git apply '+d+'/patch.diff')
    if a.returncode: print('apply',a.stderr); return False
    ok,l=build()
    if not ok: print(b['id'],'does not build',l); shutil.rmtree(d); sh('git checkout -q -- .'); return False
    m=tests()
    if m: print(b['id'],'tests fail',sorted(m)[:4],len(m)); shutil.rmtree(d); sh('git checkout -q -- .'); return False
    r=sh('bash '+d+'/demo.sh',timeout=300)
    if r.returncode==0: print(b['id'],'demo does not notice'); shutil.rmtree(d); sh('git checkout -q -- .'); return False
    print(b['id'],'kept;',r.stdout[:200].replace('\n',' | ')); sh('git checkout -q -- .'); return True
for f in sys.argv[1:]:
    ns=runpy.run_path(f)
    for b in ns['BUGS']:
        if os.path.exists(SEEDED+'/'+b['id']+'/meta.json') and not os.environ.get('AGAIN'): continue
        one(b)
