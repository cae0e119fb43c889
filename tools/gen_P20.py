#!/usr/bin/env python3
# writes checks/P20_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P20: coordinate conversions.  Generated by tools/gen_P20.py\n#include "boxes.h"\n#include "P20_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
def V(e,s): return 'vector<%s, %s>'%(e,s)
S2=('fixed<2>','dynamic<>','external<2>','external<>'); S3=('fixed<3>','dynamic<>','external<3>','external<>')
def nm(s): return s.replace('<','').replace('>','')
T=('double','float')
for s in S2:
    for e in T:
        for a in T: put('INST("polar_to_%s_%s%s", 1500, (polar_to<%s, %s>));'%(nm(s),e[0],a[0],V(e,s),a))
for s in S3:
    for e in T:
        for a,b in ((e,e),('double','float'),('float','double')): put('INST("space_to_%s_%s%s%s", 1500, (space_to<%s, %s, %s>));'%(nm(s),e[0],a[0],b[0],V(e,s),a,b))
for s in ('fixed<2>','fixed<3>','dynamic<>','external<2>','external<3>','external<>'):
    for e in T:
        for a,b in ((e,e),('double','float'),('float','double')): put('INST("from_%s_%s%s%s", 1500, (from<%s, %s, %s>));'%(nm(s),e[0],a[0],b[0],V(e,s),a,b))
for i,f in enumerate(files):
    open('P20_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
