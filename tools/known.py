#!/usr/bin/env python3
"""Rewrites the `fixed:` lines of known-findings.txt from the fix commits in /repo (property by commit subject prefix)."""
import subprocess
P='''an already captured=C01|pop the value=C02|field->name .==C04|reorder exit=C07|block comments=C17|stepped ranges=C13|late references to methods=C05|late bound globals=C04|self fields=C04|nested variadic=C04|captured for loop=C01|lift open=C01|continue in the else=C02|variables in default=C03|assignment to an array=C04|variadic arguments of a partial=C03|partially evaluated native=C15|partial functions with=C09|index and slice strings=C13|operands of assert=C02|assertion messages=C21|late bound references keep=C06|escape sequences in repr=C10|integer arithmetic=C08|int, hex=C08|stop invoking=C21|errors when matching=C16|format strings=C16|negative power=C08|complex arithmetic=C08|bounds of a slice=C13|of a set with itself=C14|rationals which equal=C09|hash of sets=C09|order of sets=C09|order nil=C09|permutations and combinations=C15|print, vector=C15|which contain themselves=C09|recursive element=C14|group_by=C15|elementwise operators=C18'''
P=[x.rsplit('=',1) for x in P.split('|')]
try: P+=[l.rstrip('\n').rsplit('=',1) for l in open('/verif/tools/known.map') if '=' in l]
except FileNotFoundError: pass
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','87eaf28..'],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    p=[b for a,b in P if a in s]
    if not p: print('NO PROPERTY',l); continue
    out.append(f'fixed: property={p[0]} {h} {s[5:]}')
f='/verif/known-findings.txt'
try: keep=[l for l in open(f).read().splitlines() if not l.startswith('fixed: ')]
except FileNotFoundError: keep=['# Known findings of the checks in /verif. A `KNOWN-FINDING:` entry is a genuine defect that is recorded, not repaired; a `fixed:` entry is one that was repaired in /repo.']
open(f,'w').write('\n'.join(keep+out)+'\n')
