#!/usr/bin/env python3
"""seedrun.py [ids...]: apply each planted bug to /repo, run the check of its property (others with ALSO=C07,...), undo; prints which checks catch it"""
import json, os, subprocess, sys, time
V='/verif/seeded'
ids=sys.argv[1:] or sorted(os.listdir(V))
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace')
if sh('git -C /repo status --porcelain').stdout: sys.exit('/repo is not clean')
for i in ids:
    prop=json.load(open(f'{V}/{i}/meta.json'))['property']
    if sh(f'git -C /repo apply {V}/{i}/patch.diff').returncode: print(i,'does not apply'); continue
    try:
        for p in [prop]+[x for x in os.environ.get('ALSO','').split(',') if x]:
            t=time.time(); r=sh(f'/verif/check.sh {p} quick')
            v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            print(i,p,'CAUGHT' if r.returncode==1 and v else f'missed ({r.returncode})',f'{time.time()-t:.0f} s',flush=True)
    finally: sh('git -C /repo checkout -q -- .')
