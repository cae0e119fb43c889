#!/usr/bin/env python3
# writes checks/P24_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P24: constants and fills.  Generated by tools/gen_P24.py\n#include "boxes.h"\n#include "P24_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
def V(e,s): return 'vector<%s, %s>'%(e,s)
def M(e,c): return 'matrix<%s, %s, %s_basis, %s_major>'%(e,c[0],c[1],c[2])
def nm(s): return s.replace('<','').replace('>','').replace(', ','x')
for s in ('fixed<1>','fixed<2>','fixed<3>','fixed<4>','fixed<7>','dynamic<>','external<3>','external<5>','external<>'):
    for e in ('int','float','double','unsigned'): put('INST("vec_%s_%s", 2000, (vec<%s>));'%(nm(s),e,V(e,s)))
for k,(b,l) in enumerate((b,l) for b in ('row','col') for l in ('row','col')):
    for s in ('fixed<1, 1>','fixed<2, 2>','fixed<3, 4>','fixed<4, 2>','fixed<4, 4>','dynamic<>','external<2, 3>','external<4, 4>','external<>'):
        for e in ('int','double') if k%2 else ('float','double'): c=(s,b,l); put('INST("mat_%s_%s%s_%s", 1000, (mat<%s>));'%(nm(s),b[0],l[0],e,M(e,c)))
for e in ('float','double','int'):
    for o in ('imaginary_first','real_first'):
        for c in ('positive_cross','negative_cross'): put('INST("quat_%s_%s_%s", 500, (quat<quaternion<%s, fixed<>, %s, %s>>));'%(e,o[0],c[0],e,o,c))
for k in range(1,9): put('INST("freev_%d", 50, (freev<%d>));'%(k,k))
for r in range(1,6):
    for c in range(1,6): put('INST("freem_%dx%d", 2, (freem<%d, %d>));'%(r,c,r,c))
for i,f in enumerate(files):
    open('P24_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
