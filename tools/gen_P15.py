#!/usr/bin/env python3
# writes checks/P15_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P15: rotation builders and conversions.  Generated by tools/gen_P15.py\n#include "boxes.h"\n#include "P15_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
def Q(e,oc): return 'quaternion<%s, fixed<>, %s, %s>'%(e,'real_first' if oc[0]=='r' else 'imaginary_first','positive_cross' if oc[1]=='p' else 'negative_cross')
def mats(d):
    out=[]
    for b in ('row','col'):
        for l in ('row','col'):
            hr,hc=(d+1,d) if b=='row' else (d,d+1)
            for s in ('fixed<%d, %d>'%(d,d),'fixed<%d, %d>'%(d+1,d+1),'fixed<%d, %d>'%(hr,hc),'dynamic<>','external<>' ,'external<%d, %d>'%(d+1,d+1)):
                out.append((s,b,l))
    return out
def M(e,c): return 'matrix<%s, %s, %s_basis, %s_major>'%(e,c[0],c[1],c[2])
def nm(c): return c[0].replace('<','').replace('>','').replace(', ','x')+'_'+c[1][0]+'b'+c[2][0]+'m'
V=['vector<%s, fixed<3>>','vector<%s, dynamic<>>','vector<%s, external<3>>','vector<%s, external<>>']
OC=['ip','in','rp','rn']
k=0
for i,c in enumerate(mats(3)):
    e='double' if i%3 else 'float'; a=['double','double','float'][(i//2)%3]; o='float' if i%5==3 else e
    put('INST("world_%s_%s%s", 3000, (world<%s, %s>));'%(nm(c),e[0],a[0],M(e,c),a))
    put('INST("axis_angle_%s_%s%s", 3000, (axis_angle<%s, %s, %s>));'%(nm(c),e[0],a[0],M(e,c),V[i%4]%e,a))
    put('INST("convert_%s_%s_%s%s", 3000, (convert<%s, %s>));'%(nm(c),OC[i%4],e[0],o[0],M(e,c),Q(o,OC[i%4])))
    put('INST("to_aa_%s_%s%s", 5000, (to_aa<%s, %s>));'%(nm(c),e[0],o[0],M(e,c),V[(i//2)%4]%o))
for i,c in enumerate(mats(2)):
    e='double' if i%3 else 'float'; a=['double','float'][i%2]
    put('INST("rot2d_%s_%s%s", 1500, (rot2d<%s, %s>));'%(nm(c),e[0],a[0],M(e,c),a))
for oc in OC:
    for e,a in (('double','double'),('float','float'),('double','float'),('float','double')):
        put('INST("qbuild_%s_%s%s", 3000, (qbuild<%s, %s>));'%(oc,e[0],a[0],Q(e,oc),a))
    for i,e in enumerate(('double','float')):
        put('INST("q_to_aa_%s_%s", 6000, (q_to_aa<%s, %s>));'%(oc,e[0],Q(e,oc),V[(OC.index(oc)+2*i)%4]%e))
for i,f in enumerate(files):
    open('P15_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
