#!/usr/bin/env python3
# writes checks/P21_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P21: vector geometry helpers.  Generated by tools/gen_P21.py\n#include "boxes.h"\n#include "P21_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
def V(e,s): return 'vector<%s, %s>'%(e,s)
def nm(s): return s.replace('<','').replace('>','')
T=('double','float')
for s in ('fixed<1>','fixed<2>','fixed<3>','fixed<4>','fixed<7>','dynamic<>','external<3>','external<>'):
    for e in T+(('int',) if s in ('fixed<3>','dynamic<>','external<>') else ()): put('INST("single_%s_%s", 2000, (single<%s>));'%(nm(s),e[0],V(e,s)))
for s in ('external<3>','external<>'): put('INST("single_c%s_d", 2000, (single<vector<const double, %s>>));'%(nm(s),s))
P=[('fixed<2>','fixed<2>'),('fixed<3>','fixed<3>'),('fixed<4>','fixed<4>'),('dynamic<>','dynamic<>'),('external<3>','external<3>'),('external<>','external<>'),('fixed<3>','dynamic<>'),('dynamic<>','fixed<2>'),('external<>','dynamic<>'),('external<3>','fixed<3>')]
for a,b in P:
    for e,f in (('double','double'),('float','float'),('float','double'),('double','float'),('int','double')) + ((('int','int'),) if a==b else ()): put('INST("pairs_%s_%s_%s%s", 1000, (pairs<%s, %s>));'%(nm(a),nm(b),e[0],f[0],V(e,a),V(f,b)))
Q=[('fixed<D>','fixed<D>'),('dynamic<>','dynamic<>'),('external<D>','fixed<D>'),('external<>','external<>'),('fixed<D>','dynamic<>')]
for a,b in Q:
    for e,f in (('double','double'),('float','float'),('float','double'),('double','float')):
        A,B=a.replace('D','2'),b.replace('D','2'); put('INST("plane_%s_%s_%s%s", 2000, (plane<%s, %s>));'%(nm(A),nm(B),e[0],f[0],V(e,A),V(f,B)))
        A,B=a.replace('D','3'),b.replace('D','3'); c='dynamic<>' if a[0]=='f' else 'external<3>'; put('INST("space_%s_%s_%s%s", 2000, (space<%s, %s, %s>));'%(nm(A),nm(B),e[0],f[0],V(e,A),V(f,B),V(e,c)))
        put('INST("rotate_%s_%s_%s%s", 2000, (rotate<%s, %s, %s>));'%(nm(A),nm(B),e[0],f[0],V(e,A),V(f,B),f if a!=b else e))
for i,f in enumerate(files):
    open('P21_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
