#!/usr/bin/env python3
# writes checks/P25_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P25: quaternion contents.  Generated by tools/gen_P25.py\n#include "boxes.h"\n#include "P25_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
def V(e,s): return 'vector<%s, %s>'%(e,s)
def Q(e,o,c): return 'quaternion<%s, fixed<>, %s, %s>'%(e,{'i':'imaginary_first','r':'real_first'}[o],{'p':'positive_cross','n':'negative_cross'}[c])
S=('fixed<3>','dynamic<>','external<3>','external<>'); k=0
def nm(s): return s.replace('<','').replace('>','')
for e,f in (('double','double'),('float','float'),('float','double'),('double','float'),('int','int'),('int','double'),('double','int')):
    for o in 'ir':
        for p in 'ir':
            c,d='pn'[k%2],'pn'[(k//2)%2]; s=S[(k+k//4)%4]; ve=('double','float','int')[k%3] if e!='float' else ('float','double')[k%2]
            put('INST("history_%s%s%s_%s%s%s_%s%s", 2000, (history<%s, %s, %s>));'%(e[0],o,c,f[0],p,d,nm(s),ve[0],Q(e,o,c),Q(f,p,d),V(ve,s)))
            put('INST("compound_%s%s%s_%s%s%s", 1000, (compound<%s, %s>));'%(e[0],o,c,f[0],p,d,Q(e,o,c),Q(f,p,d)))
            k+=1
for i,f in enumerate(files):
    open('P25_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
