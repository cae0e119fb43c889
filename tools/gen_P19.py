#!/usr/bin/env python3
# writes checks/P19_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P19: projections and frustum planes.  Generated by tools/gen_P19.py\n#include "boxes.h"\n#include "P19_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
def M(e,c): return 'matrix<%s, %s, %s_basis, %s_major>'%(e,c[0],c[1],c[2])
def nm(c): return c[0].replace('<','').replace('>','').replace(', ','x')+'_'+c[1][0]+'b'+c[2][0]+'m'
L=[(s,b,l) for b in ('row','col') for l in ('row','col') for s in ('fixed<4, 4>','fixed<5, 4>','fixed<4, 5>','fixed<5, 5>','dynamic<>','external<>','external<4, 4>')]
for i,c in enumerate(L):
    for e,a in (('double','double'),('float','float')) + ((('double','float'),('float','double')) if c[0] in ('fixed<4, 4>','dynamic<>') else ()):
        put('INST("project_%s_%s%s", 2000, (project<%s, %s>));'%(nm(c),e[0],a[0],M(e,c),a))
    e='double' if (i+i//7)%2 else 'float'
    for p in ('double','float'):
        put('INST("planes_%s_%s%s", 1500, (planes<%s, %s>));'%(nm(c),e[0],p[0],M(e,c),p))
    if c[0] in ('fixed<4, 4>','dynamic<>','external<>','external<4, 4>'):
        put('INST("camera_%s_%s", 2000, (camera<%s, %s>));'%(nm(c),e[0],M(e,c),['double','float'][i%2]))
        if e=='float': put('INST("camera_%s_d", 2000, (camera<%s, %s>));'%(nm(c),M('double',c),'double'))
for i,f in enumerate(files):
    open('P19_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
