#!/usr/bin/env python3
# writes checks/P09_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P09: size mismatches.  Generated by tools/gen_P09.py\n#include "boxes.h"\n#include "P09_common.h"\n\n'
B={'r':'row_basis','c':'col_basis'}; L={'r':'row_major','c':'col_major'}
def M(e,k,bl):
    s,dim=k[0],k[1:]
    st={'F':'fixed<%s>','X':'external<%s>','D':'dynamic<>','Y':'external<>'}[s]
    if dim: st=st%', '.join(dim)
    return 'matrix<%s, %s, %s, %s>'%(e,st,B[bl[0]],L[bl[1]])
def V(e,k):
    s,d=k[0],k[1:]
    c='const ' if s in 'ck' else ''
    return 'vector<%s%s, %s>'%(c,e,{'F':'fixed<%s>'%d,'X':'external<%s>'%d,'c':'external<%s>'%d,'D':'dynamic<>','Y':'external<>','k':'external<>'}[s])
bls=['rr','rc','cr','cc']; es=['double','float','int']
files=[[] for _ in range(16)]; n=0
def put(s):
    global n
    files[n%16].append(s); n+=1
i=0
for a,b in [('D','D'),('D','Y'),('Y','D'),('Y','Y'),('F3','D'),('D','F3'),('F2','Y'),('Y','F2'),('X3','D'),('D','X3'),('X2','Y'),('Y','X4'),('k','D'),('D','k'),('F3','k'),('c3','D'),('Y','c2'),('k','Y'),('D','F1'),('F4','D')]:
    ea,eb=es[i%3],es[(i//3)%3]; i+=1
    put('INST("vec2_%s%s_%s%s", 5000, (vec2<%s, %s>));'%(a,ea[0],b,eb[0],V(ea,a),V(eb,b)))
for t in [('D','D','D'),('F3','D','Y'),('Y','F3','D'),('D','Y','F3'),('X3','k','D'),('Y','D','c3'),('F3','F3','D'),('D','F3','F3')]:
    e=[es[i%3],es[(i//3)%3],es[(i//2)%3]]; i+=1
    put('INST("vec3_%s", 5000, (vec3<%s>));'%('_'.join(x+y[0] for x,y in zip(t,e)),', '.join(V(y,x) for x,y in zip(t,e))))
for a,b in [('D','D'),('D','Y'),('Y','D'),('Y','Y'),('F33','D'),('D','F33'),('F23','Y'),('Y','F23'),('X32','D'),('D','X32'),('X22','Y'),('Y','X22'),('F44','D')]:
    ea,eb=es[i%3],es[(i//3)%3]; i+=1
    put('INST("mat2_%s%s_%s%s", 5000, (mat2<%s, %s>));'%(a,ea[0],b,eb[0],M(ea,a,bls[i%4]),M(eb,b,bls[(i//2)%4])))
for a,b in [('D','D'),('D','Y'),('Y','D'),('F33','D'),('D','F33'),('F23','Y'),('Y','F32'),('X22','D'),('D','X23')]:
    ea,eb=es[i%3],es[(i//3)%3]; i+=1; bl=bls[i%4]
    put('INST("prod_%s%s_%s%s_%s", 5000, (prod<%s, %s>));'%(a,ea[0],b,eb[0],bl,M(ea,a,bl),M(eb,b,bl)))
for a,b in [('D','D'),('D','Y'),('Y','D'),('F33','D'),('F23','Y'),('D','F3'),('Y','F2'),('D','X3'),('X32','D'),('Y','k'),('D','c2')]:
    ea,eb=es[i%3],es[(i//3)%3]; i+=1; bl=bls[i%4]
    put('INST("mv_%s%s_%s%s_%s", 5000, (mvprod<%s, %s>));'%(a,ea[0],b,eb[0],bl,M(ea,a,bl),V(eb,b)))
for k in ['F3','F2','F5','D','X4','X1','Y']:
    put('INST("vlist_%s", 4000, (vlist<%s>));'%(k,V(es[i%3],k))); i+=1
for k in ['F22','F23','F31','D','X22','X32','Y']:
    put('INST("mlist_%s", 4000, (mlist<%s>));'%(k,M(es[i%3],k,bls[i%4]))); i+=1
for a,b in [('D','D'),('Y','Y'),('D','F3'),('F33','D'),('F55','Y'),('Y','X4'),('D','Y')]:
    e=es[i%2]; i+=1
    put('INST("square_%s%s_%s", 4000, (square<%s, %s>));'%(a,e[0],b,M(e,a,bls[i%4]),V(e,b)))
j=0
for a in 'DY':
    for bl in bls:
        for v in ['D','Y'] if j%2 else ['D','F3','Y']:
            put('INST("mlib_%s_%s_%s", 8000, (mlib<%s, %s>));'%(a,bl,v,M('double',a,bl),V('double',v)))
        j+=1
put('INST("mlib_D_rc_F2", 4000, (mlib<%s, %s>));'%(M('double','D','rc'),V('double','F2')))
put('INST("mlib_D_cc_k", 4000, (mlib<%s, %s>));'%(M('double','D','cc'),V('double','k')))
put('INST("mlib_Y_cr_F4", 2000, (mlib<%s, %s>));'%(M('double','Y','cr'),V('double','F4')))
for a,b in [('D','D'),('D','Y'),('Y','D'),('F3','D'),('D','F3'),('Y','k'),('F2','Y'),('X3','D'),('Y','X2')]:
    put('INST("vlib_%s_%s", 6000, (vlib<%s, %s>));'%(a,b,V('double',a),V('double',b)))
put('INST("quaternions", 10000, (quats));')
for i,f in enumerate(files):
    open('P09_%s.cpp'%'abcdefghijklmnop'[i],'w').write(H+'\n'.join(f)+'\n')
