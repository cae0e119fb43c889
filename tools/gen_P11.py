#!/usr/bin/env python3
# writes checks/P11_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P11: determinant, inverse, trace.  Generated by tools/gen_P11.py\n#include "boxes.h"\n#include "P11_common.h"\n\n'
B={'r':'row_basis','c':'col_basis'}; L={'r':'row_major','c':'col_major'}
def M(e,k,bl):
    s,dim=k[0],k[1:]
    st={'F':'fixed<%s>','X':'external<%s>','D':'dynamic<>','Y':'external<>'}[s]
    if dim: st=st%', '.join(dim)
    return 'matrix<%s, %s, %s, %s>'%(e,st,B[bl[0]],L[bl[1]])
bls=['rr','rc','cr','cc']; es=['double','float']
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
ks=['F22','F33','F44','F55','D','Y','X33','X44','F66','D','F77','X55','F11','X22','D','Y']
for i,k in enumerate(ks):
    for j in range(2):
        bl=bls[(i+2*j+i//4)%4]; e=es[(i+j)%2]
        big=k in('F77',)
        put('INST("inv_%s%s_%s", %d, (inv<%s>));'%(k,e[0],bl,800 if k in('F77','F66') else 2400,M(e,k,bl)))
for i,k in enumerate(ks):
    e=es[i%2]; bl=bls[(i+i//4)%4]
    put('INST("det_%s%s_%s", %d, (det<%s>));'%(k,e[0],bl,400 if k in('F77','F66') else 1600 if k not in('D','Y') else 1200,M(e,k,bl)))
    put('INST("exact_%s%s_%s", 2000, (exactm<%s>));'%(k,es[1-i%2][0],bls[(i+1)%4],M(es[1-i%2],k,bls[(i+1)%4])))
for i,k in enumerate(['F22','F33','F44','D','Y','X33']):
    put('INST("det_%si_%s", 3000, (det<%s>));'%(k,bls[i%4],M('int',k,bls[i%4])))
for i,(k,t) in enumerate([('F55','int'),('D','long long'),('F66','long long'),('Y','long long'),('F77','int'),('X55','long long')]):
    put('INST("det_%s%s_%s", 1500, (det<%s>));'%(k,t[0],bls[(i*3+1)%4],M(t,k,bls[(i*3+1)%4])))
for i,(k,t) in enumerate([('F55','int'),('D','int'),('F66','long long'),('Y','short'),('D','unsigned'),('F77','unsigned'),('X55','short'),('D','long long')]):
    put('INST("detint_%s%s_%s", 3000, (det_int<%s>));'%(k,t.replace(' ','')[:2],bls[(i*3+2)%4],M(t,k,bls[(i*3+2)%4])))
for i,k in enumerate(['D','Y']):
    put('INST("reject_%s", 2000, (reject<%s>));'%(k,M('double',k,bls[i])))
for i,f in enumerate(files):
    open('P11_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
