#!/usr/bin/env python3
# writes checks/P23_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P23: random generators.  Generated by tools/gen_P23.py\n#include "boxes.h"\n#include "P23_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
def V(e,s): return 'vector<%s, %s>'%(e,s)
def M(e,c): return 'matrix<%s, %s, %s_basis, %s_major>'%(e,c[0],c[1],c[2])
def nm(s): return s.replace('<','').replace('>','').replace(', ','x')
for t in ('int','short','long','unsigned','float','double'): put('INST("scalars_%s", 150, (scalars<%s>));'%(t,t))
VS=('fixed<1>','fixed<2>','fixed<3>','fixed<4>','fixed<7>','dynamic<>','external<2>','external<3>','external<>')
for i,s in enumerate(VS):
    for e in ('int','float','double')+(('unsigned','short') if s in ('fixed<4>','dynamic<>') else ()): put('INST("vec_%s_%s", 100, (vec<%s>));'%(nm(s),e,V(e,s)))
    for e in ('float','double'):
        for k,r in enumerate(('std::mt19937','std::minstd_rand','std::mt19937_64')):
            if k==i%3 or s in ('fixed<3>','dynamic<>'): put('INST("unit_%s_%s_%d", 100, (unitv<%s, %s>));'%(nm(s),e,k,V(e,s),r))
for b in ('row','col'):
    for l in ('row','col'):
        for s in ('fixed<2, 2>','fixed<3, 4>','fixed<4, 2>','dynamic<>','external<2, 3>','external<>'):
            for e in ('int','double' if b==l else 'float'): c=(s,b,l); put('INST("mat_%s_%s%s_%s", 60, (mat<%s>));'%(nm(s),b[0],l[0],e,M(e,c)))
for i,(a,d) in enumerate((('fixed<1>','fixed<1>'),('fixed<2>','fixed<2>'),('fixed<3>','fixed<3>'),('fixed<4>','fixed<4>'),('fixed<6>','fixed<6>'),('dynamic<>','dynamic<>'),('dynamic<>','fixed<2>'),('dynamic<>','fixed<3>'),('fixed<2>','dynamic<>'),('fixed<3>','dynamic<>'),('external<3>','external<3>'),('external<2>','fixed<2>'),('external<>','external<>'))):
    for e,f,k in (('double','double','double'),('float','float','float'))+((('float','double','double'),('double','float','float')) if i in (1,2,3,5,8) else ()): put('INST("cone_%s_%s_%s%s%s", 120, (cone<%s, %s, %s>));'%(nm(a),nm(d),e[0],f[0],k[0],V(e,a),V(f,d),k))
for i,f in enumerate(files):
    open('P23_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
