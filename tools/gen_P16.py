#!/usr/bin/env python3
# writes checks/P16_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P16: Euler angles.  Generated by tools/gen_P16.py\n#include "boxes.h"\n#include "P16_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
def Q(e,oc): return 'quaternion<%s, fixed<>, %s, %s>'%(e,'real_first' if oc[0]=='r' else 'imaginary_first','positive_cross' if oc[1]=='p' else 'negative_cross')
def mats(d):
    out=[]
    for b in ('row','col'):
        for l in ('row','col'):
            hr,hc=(d+1,d) if b=='row' else (d,d+1)
            for s in ('fixed<%d, %d>'%(d,d),'fixed<%d, %d>'%(d+1,d+1),'fixed<%d, %d>'%(hr,hc),'dynamic<>','external<>' ,'external<%d, %d>'%(d,d)):
                out.append((s,b,l))
    return out
def M(e,c): return 'matrix<%s, %s, %s_basis, %s_major>'%(e,c[0],c[1],c[2])
def nm(c): return c[0].replace('<','').replace('>','').replace(', ','x')+'_'+c[1][0]+'b'+c[2][0]+'m'
V=['vector<%s, fixed<3>>','vector<%s, dynamic<>>','vector<%s, external<3>>','vector<%s, external<>>']
A=[('double','double','double'),('float','float','float'),('double','float','double'),('float','double','float'),('double','double','float')]
for i,c in enumerate(mats(3)):
    e='double' if i%3 else 'float'; a=A[0] if i%2 and e=='double' else A[i%5]; v=V[i%4]%e; w=V[i%2]%e
    x=''.join(t[0] for t in a)
    put('INST("build_%s_%s%s", 4000, (build<%s, %s, %s>));'%(nm(c),e[0],x,M(e,c),', '.join(a),v))
    put('INST("deriv_%s_%s%s", 4000, (deriv<%s, %s, %s>));'%(nm(c),e[0],x,M(e,c),', '.join(a),v))
    put('INST("extract_%s_%s%s", 8000, (extract<%s, %s, %s>));'%(nm(c),e[0],x,M(e,c),', '.join(a),w))
i=0
for oc in ('ip','in','rp','rn'):
    for e in ('double','float'):
        a=A[0] if e=='double' else A[1]
        put('INST("qbuild_%s_%s", 6000, (qbuild<%s, %s, %s>));'%(oc,e[0],Q(e,oc),', '.join(a),V[i%4]%e))
        put('INST("qextract_%s_%s", 8000, (qextract<%s, %s, %s>));'%(oc,e[0],Q(e,oc),', '.join(a),V[i%2]%e)); i+=1
    put('INST("qbuild_%s_mixed", 4000, (qbuild<%s, %s, %s>));'%(oc,Q('double',oc),', '.join(A[2]),V[1]%'float'))
for i,f in enumerate(files):
    open('P16_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
