#!/usr/bin/env python3
# writes checks/P13_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P13: comparison, hashing, printing.  Generated by tools/gen_P13.py\n#include "boxes.h"\n#include <map>\n#include "P13_common.h"\n\n'
B={'r':'row_basis','c':'col_basis'}; L={'r':'row_major','c':'col_major'}
def M(e,k,bl):
    s,dim=k[0],k[1:]
    st={'F':'fixed<%s>','X':'external<%s>','D':'dynamic<>','Y':'external<>'}[s]
    if dim: st=st%', '.join(dim)
    return 'matrix<%s, %s, %s, %s>'%(e,st,B[bl[0]],L[bl[1]])
def V(e,k):
    s,d=k[0],k[1:]
    c='const ' if s in 'ck' else ''
    return 'vector<%s%s, %s>'%(c,e,{'F':'fixed<%s>'%d,'X':'external<%s>'%d,'c':'external<%s>'%d,'D':'dynamic<>','Y':'external<>','k':'external<>'}[s])
def Q(e,o,c): return 'quaternion<%s, fixed<>, cml::%s, cml::%s>'%(e,'real_first' if o=='r' else 'imaginary_first','positive_cross' if c=='p' else 'negative_cross')
bls=['rr','rc','cr','cc']; es=['double','float','int']
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
vp=[('F3','F3'),('D','D'),('F2','D'),('D','F4'),('X3','F3'),('Y','Y'),('Y','D'),('c3','F3'),('k','D'),('D','Y'),('F4','X4'),('F2','F3'),('X2','X4'),('F1','D'),('k','Y')]
for i,(a,b) in enumerate(vp):
    e=es[i%3]; f=es[(i+1+i//3)%3]
    put('INST("rel_%s_%s_%s", 5000, (vrel<%s, %s>));'%(a,b,e[0],V(e,a),V(e,b)))
    if e!=f: put('INST("rel_%s%s_%s%s", 3000, (vrel<%s, %s>));'%(a,e[0],b,f[0],V(e,a),V(f,b)))
for i,k in enumerate(['F2','F3','D','F4','D','D']):
    put('INST("containers_%s%s", 2500, (containers<%s>));'%(k,es[i%3][0],V(es[i%3],k)))
put('INST("containers_F3u", 2500, (containers<%s>));'%V('unsigned','F3'))
for i,(a,b) in enumerate([('F3','D'),('D','Y'),('F4','X4'),('F2','F2'),('D','D'),('X3','Y')]):
    e=es[i%2]
    put('INST("hash_%s_%s%s", 2500, (hashes<%s, %s>));'%(a,b,e[0],V(e,a),V(e,b)))
mp=[('F33','F33'),('D','D'),('F23','D'),('D','F32'),('Y','D'),('X22','F22'),('F23','F32'),('X24','Y'),('D','Y'),('F14','F14')]
for i,(a,b) in enumerate(mp):
    e=es[i%3]; f=es[(i//2+i)%3]; x=bls[i%4]; y=bls[(i+i//3+1)%4]
    y=x[0]+y[1]
    put('INST("mrel_%s%s%s_%s%s%s", 5000, (mrel<%s, %s>));'%(a,e[0],x,b,f[0],y,M(e,a,x),M(f,b,y)))
    y={'r':'c','c':'r'}[x[0]]+y[1]
    put('INST("mrel_%s%s%s_%s%s%s", 3000, (mrel<%s, %s>));'%(a,e[0],x,b,e[0],y,M(e,a,x),M(e,b,y)))
for o in 'ri':
    for e in ['double','float']:
        put('INST("qrel_%s%s", 6000, (qrel<%s, %s>));'%(o,e[0],Q(e,o,'p'),Q(e,o,'p')))
        put('INST("qprint_%s%s", 2500, (qprint<%s>));'%(o,e[0],Q(e,o,'n')))
    put('INST("qrel_%s_df", 6000, (qrel<%s, %s>));'%(o,Q('double',o,'p'),Q('float',o,'n')))
    put('INST("qrel_%s_id", 6000, (qrel<%s, %s>));'%(o,Q('int',o,'n'),Q('double',o,'p')))
    put('INST("qrel_%s_ii", 3000, (qrel<%s, %s>));'%(o,Q('int',o,'n'),Q('int',o,'n')))
for i,k in enumerate(['F3','D','X2','Y','c4','k','F1','D','D']):
    put('INST("vprint_%s%s", 2500, (vprint<%s>));'%(k,es[i%3][0],V(es[i%3],k)))
for i,k in enumerate(['F33','D','F24','Y','X32','D','F11','D']):
    put('INST("mprint_%s%s", 2500, (mprint<%s>));'%(k,es[i%3][0],M(es[i%3],k,bls[i%4])))
for i,f in enumerate(files):
    open('P13_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
