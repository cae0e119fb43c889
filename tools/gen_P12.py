#!/usr/bin/env python3
# writes checks/P12_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P12: LU.  Generated by tools/gen_P12.py\n#include "boxes.h"\n#include "P12_common.h"\n\n'
B={'r':'row_basis','c':'col_basis'}; L={'r':'row_major','c':'col_major'}
def M(e,k,bl):
    s,dim=k[0],k[1:]
    st={'F':'fixed<%s>','X':'external<%s>','D':'dynamic<>','Y':'external<>'}[s]
    if dim: st=st%', '.join(dim)
    return 'matrix<%s, %s, %s, %s>'%(e,st,B[bl[0]],L[bl[1]])
def V(e,k):
    s,d=k[0],k[1:]
    c='const ' if s in 'ck' else ''
    return 'vector<%s%s, %s>'%(c,e,{'F':'fixed<%s>'%d,'X':'external<%s>'%d,'c':'external<%s>'%d,'D':'dynamic<>','Y':'external<>','k':'external<>'}[s])
bls=['rr','rc','cr','cc']; es=['double','float']
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
ks=['F22','F33','F44','D','Y','X33','F55','F66','D','F11','X44','Y']
for i,k in enumerate(ks):
    for j in range(2):
        bl=bls[(i+2*j+i//4)%4]; e=es[(i+j)%2]
        put('INST("lu_%s%s_%s", 2000, (lu_plain<%s>));'%(k,e[0],bl,M(e,k,bl)))
        put('INST("pivot_%s%s_%s", 2000, (lu_piv<%s>));'%(k,e[0],bl,M(e,k,bl)))
        put('INST("singular_%s%s_%s", 1000, (singular<%s>));'%(k,e[0],bl,M(e,k,bl)))
for i,(k,t) in enumerate([('F33','int'),('D','int'),('D','long long'),('F55','long long'),('Y','int')]):
    put('INST("singular_%s%s_%s", 1000, (singular_int<%s>));'%(k,t[0],bls[(i+1)%4],M(t,k,bls[(i+1)%4])))
for i,(a,b) in enumerate([('F22','F2'),('F33','F3'),('F44','D'),('D','D'),('D','F3'),('Y','Y'),('X33','X3'),('F55','F5'),('D','Y'),('Y','X4'),('F33','c3'),('D','k'),('F66','Y'),('X44','F4'),('D','D'),('F11','F1')]):
    for j in range(2):
        bl=bls[(i+2*j+i//4)%4]; e=es[(i+j)%2]; f=es[(i//2+j)%2]
        put('INST("solve_%s%s_%s%s_%s", 3000, (solve<%s, %s>));'%(a,e[0],b,f[0],bl,M(e,a,bl),V(f,b)))
for i,k in enumerate(['D','Y']):
    put('INST("empty_%s", 20, (empty<%s>));'%(k,M('double',k,bls[i])))
for i,f in enumerate(files):
    open('P12_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
