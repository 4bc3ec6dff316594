#!/usr/bin/env python3
"""Extracts the programs of the repository's own tests as seeds (run once; the result is committed)."""
import re,glob,os,sys
src=open('/repo/cordy-sys/src/vm/tests.rs').read()
def unesc(s):
    out='';i=0
    while i<len(s):
        c=s[i]
        if c=='\\':
            n=s[i+1]
            if n=='\n':
                i+=2
                while i<len(s) and s[i] in ' \t\n\r': i+=1
                continue
            m={'n':'\n','t':'\t','r':'\r','\\':'\\','"':'"',"'":"'",'0':'\0'}
            if n in m: out+=m[n]; i+=2; continue
            if n=='u':
                j=s.index('}',i); out+=chr(int(s[i+3:j],16)); i=j+1; continue
            raise Exception(s[i:i+10])
        out+=c;i+=1
    return out
progs=[]
for m in re.finditer(r'\brun(?:_unopt)?\(\s*(?:"((?:[^"\\]|\\.)*)"|r#?"(.*?)"#?)\s*,',src,re.S):
    progs.append(unesc(m.group(1)) if m.group(1) is not None else m.group(2))
for d in ('compiler','parser'):
    for f in sorted(glob.glob(f'/repo/cordy-sys/test/{d}/*.cor')):
        progs.append(open(f).read().replace('\r',''))
src=open('/repo/cordy-sys/src/compiler/parser/mod.rs').read()
for m in re.finditer(r'\brun(?:_err|_expr)?\(\s*"((?:[^"\\]|\\.)*)"\s*,',src,re.S): progs.append(unesc(m.group(1)))
progs=[p for p in dict.fromkeys(progs) if '\x1e' not in p]
open('/verif/corpus/seeds.txt','w').write('\x1e'.join(progs))
print(len(progs))
