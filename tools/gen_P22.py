#!/usr/bin/env python3
# writes checks/P22_[a-b].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P22: scalar helpers.  Generated by tools/gen_P22.py\n#include "boxes.h"\n#include "P22_common.h"\n\n'
files=[[] for _ in range(2)]; n=0
def put(s):
    global n
    files[n%2].append(s); n+=1
R=('float','double','long double'); I=('int','long','short','unsigned')
c=lambda t:t.replace(' ','_')
for t in R+I:
    put('INST("exact_helpers_%s", 20000, (exact_helpers<%s>));'%(c(t),t)); 
for t in R+('int','long','short','unsigned'):
    put('INST("extreme_%s", 40000, (extreme<%s>));'%(c(t),t))
for t in R+('int','long'): put('INST("wrap_map_%s", 40000, (wrap_map<%s>));'%(c(t),t))
for t in R:
    for f,k in (('reals',30000),('fov',30000),('indices',5000)): put('INST("%s_%s", %d, (%s<%s>));'%(f,c(t),k,f,t))
for i,f in enumerate(files):
    open('P22_%s.cpp'%'ab'[i],'w').write(H+'\n'.join(f)+'\n')
