#!/usr/bin/env python3
# writes checks/P08_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P08: matrix products.  Generated by tools/gen_P08.py\n#include "boxes.h"\n#include "P08_common.h"\n\n'
B={'r':'row_basis','c':'col_basis'}; L={'r':'row_major','c':'col_major'}
def M(e,k,bl):
    s,dim=k[0],k[1:]
    st={'F':'fixed<%s>','X':'external<%s>','D':'dynamic<>','Y':'external<>'}[s]
    if dim: st=st%', '.join(dim)
    return 'matrix<%s, %s, %s, %s>'%(e,st,B[bl[0]],L[bl[1]])
def V(e,k):
    s,d=k[0],k[1:]
    c='const ' if s in 'ck' else ''
    return 'vector<%s%s, %s>'%(c,e,{'F':'fixed<%s>'%d,'X':'external<%s>'%d,'c':'external<%s>'%d,'D':'dynamic<>','Y':'external<>','k':'external<>'}[s])
bls=['rr','rc','cr','cc']; es=['double','float','int']
files=[[] for _ in range(10)]; n=0
def put(s):
    global n
    files[n%10].append(s); n+=1
pairs=[('F33','F33'),('F23','F34'),('F22','D'),('D','F44'),('D','D'),('X33','F33'),('F32','X21'),('X22','X24'),('X33','D'),('D','X33'),
       ('Y','Y'),('Y','D'),('D','Y'),('Y','F33'),('F13','Y'),('X42','Y'),('Y','X23'),('F44','F44'),('F22','F22'),('F31','F15')]
for i,(a,b) in enumerate(pairs):
    for j in range(2):
        bl=bls[(i+2*j+(i//4))%4]; ea=es[(i+j)%3]; eb=es[(i//3+2*j)%3]
        put('INST("mm_%s%s_%s%s_%s", 5000, (mm<%s, %s>));'%(a,ea[0],b,eb[0],bl,M(ea,a,bl),M(eb,b,bl)))
tr=[('F33','F33','F33'),('D','D','D'),('F23','F34','D'),('D','F33','D'),('Y','D','F22'),('X22','Y','D'),('F44','F44','F44'),('F22','F22','F22'),('D','Y','X31')]
for i,t in enumerate(tr):
    for j in range(2 if i<2 else 1):
        bl=bls[(i+j)%4]; e=[es[(i+j)%3],es[(i//2)%3],es[(i+2*j)%3]]
        put('INST("laws_%s_%s", 4000, (laws<%s, %s, %s>));'%('_'.join(x+y[0] for x,y in zip(t,e)),bl,*(M(y,x,bl) for x,y in zip(t,e))))
mvs=[('F33','F3'),('F23','F3'),('F23','F2'),('F44','F4'),('F22','F2'),('D','F3'),('D','D'),('F34','D'),('X33','F3'),('X23','D'),('Y','D'),('Y','F2'),('D','X3'),('D','Y'),('F33','X3'),('F32','Y'),
     ('X33','X3'),('Y','Y'),('Y','X4'),('X24','Y'),('F33','c3'),('D','k'),('Y','c2'),('F25','k')]
for i,(a,b) in enumerate(mvs):
    bl=bls[(i+(i//4))%4]; ea=es[i%3]; eb=es[(i//3)%3]
    put('INST("mv_%s%s_%s%s_%s", 6000, (mv<%s, %s>));'%(a,ea[0],b,eb[0],bl,M(ea,a,bl),V(eb,b)))
for i,(a,b,v) in enumerate([('F33','F33','F3'),('D','D','D'),('F23','F34','F3'),('D','F22','F2'),('Y','D','Y'),('F44','F44','D'),('X22','X22','X2')]):
    bl=bls[i%4]
    put('INST("inexact_%s_%s_%s", 5000, (inexact<%s, %s, %s>));'%(a,b,v,M(es[i%2],a,bl),M(es[(i//2)%2],b,bl),V(es[(i//2+1)%2],v)))
for i,f in enumerate(files):
    open('P08_%s.cpp'%'abcdefghij'[i],'w').write(H+'\n'.join(f)+'\n')
