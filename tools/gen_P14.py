#!/usr/bin/env python3
# writes checks/P14_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P14: quaternion algebra.  Generated by tools/gen_P14.py\n#include "boxes.h"\n#include "P14_common.h"\n\n'
def Q(e,oc): return 'quaternion<%s, fixed<>, %s, %s>'%(e,'real_first' if oc[0]=='r' else 'imaginary_first','positive_cross' if oc[1]=='p' else 'negative_cross')
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
for oc in ('ip','in','rp','rn'):
    for e,f in (('double','double'),('float','float'),('double','float'),('int','double'),('float','int'),('int','int')):
        put('INST("linear_%s_%s%s", 5000, (linear<%s, %s>));'%(oc,e[0],f[0],Q(e,oc),Q(f,oc)))
        put('INST("product_%s_%s%s", 5000, (product<%s, %s>));'%(oc,e[0],f[0],Q(e,oc),Q(f,oc)))
    for e in ('double','float'):
        put('INST("parts_%s_%s", 5000, (parts<%s>));'%(oc,e[0],Q(e,oc)))
        put('INST("inexact_%s_%s", 8000, (inexact<%s>));'%(oc,e[0],Q(e,oc)))
        put('INST("explog_%s_%s", 10000, (explog<%s>));'%(oc,e[0],Q(e,oc)))
for i,f in enumerate(files):
    open('P14_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
