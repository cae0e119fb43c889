#!/usr/bin/env python3
# writes checks/P10_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P10: views.  Generated by tools/gen_P10.py\n#include "boxes.h"\n#include "P10_common.h"\n\n'
B={'r':'row_basis','c':'col_basis'}; L={'r':'row_major','c':'col_major'}
def M(e,k,bl):
    s,dim=k[0],k[1:]
    st={'F':'fixed<%s>','X':'external<%s>','D':'dynamic<>','Y':'external<>'}[s]
    if dim: st=st%', '.join(dim)
    return 'matrix<%s, %s, %s, %s>'%(e,st,B[bl[0]],L[bl[1]])
def V(e,k):
    s,d=k[0],k[1:]
    c='const ' if s in 'ck' else ''
    return 'vector<%s%s, %s>'%(c,e,{'F':'fixed<%s>'%d,'X':'external<%s>'%d,'c':'external<%s>'%d,'D':'dynamic<>','Y':'external<>','k':'external<>'}[s])
bls=['rr','rc','cr','cc']; es=['double','float','int']
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
ms=[('F33','F33'),('F23','F32'),('F44','D'),('F31','F13'),('F25','D'),('D','D'),('D','F23'),('D','F33'),('X33','F33'),('X24','D'),('X32','F23'),('Y','D'),('Y','F22'),('D','D'),('F22','F22'),('F14','D')]
for i,(a,b) in enumerate(ms):
    for j in range(2):
        bl=bls[(i+j*2+i//4)%4]; bl2=bls[(i//2+j)%4]; e=es[(i+j)%3]; e2=e
        put('INST("views_%s%s_%s", 3000, (matviews<%s, %s>));'%(a,e[0],bl,M(e,a,bl),M(e2,b,bl2)))
for i,k in enumerate(['F2','F3','F4','F6','D','X2','X5','Y','c3','k','D','Y']):
    e=es[i%3]
    put('INST("subviews_%s%s", 4000, (subviews<%s>));'%(k,e[0],V(e,k)))
for i,f in enumerate(files):
    open('P10_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
