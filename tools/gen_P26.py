#!/usr/bin/env python3
# writes checks/P26_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P26: reentrancy.  Generated by tools/gen_P26.py\n#include "boxes.h"\n#include "P26_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
for e in ('double','float','int'): put('INST("vec_%s", 1000, (concurrent<VecWorld<%s>>));\nINST("changed_vec_%s", 6000, (changed<VecWorld<%s>>));\nINST("order_vec_%s", 6000, (anyorder<VecWorld<%s>>));'%(e,e,e,e,e,e))
for e,b,l in (('double','row','row'),('double','col','col'),('float','col','row'),('float','row','col'),('int','row','row')): put('INST("mat_%s_%sb%sm", 1000, (concurrent<MatWorld<%s, %s_basis, %s_major>>));\nINST("changed_mat_%s_%sb%sm", 6000, (changed<MatWorld<%s, %s_basis, %s_major>>));\nINST("order_mat_%s_%sb%sm", 6000, (anyorder<MatWorld<%s, %s_basis, %s_major>>));'%((e,b[0],l[0],e,b,l)*3))
for e,o,c,b,l in (('double','real_first','positive_cross','row','row'),('double','imaginary_first','negative_cross','col','col'),('float','imaginary_first','positive_cross','col','row'),('float','real_first','negative_cross','row','col')): put('INST("rot_%s_%s%s_%sb%sm", 1000, (concurrent<RotWorld<%s, cml::%s, cml::%s, %s_basis, %s_major>>));\nINST("changed_rot_%s_%s%s_%sb%sm", 6000, (changed<RotWorld<%s, cml::%s, cml::%s, %s_basis, %s_major>>));\nINST("order_rot_%s_%s%s_%sb%sm", 6000, (anyorder<RotWorld<%s, cml::%s, cml::%s, %s_basis, %s_major>>));'%((e,o[0],c[0],b[0],l[0],e,o,c,b,l)*3))
k=[]
for i,(e,s) in enumerate((('double','fixed<4>'),('char','fixed<7>'),('short','dynamic<>'),('float','dynamic<>'),('double','external<>'),('char','external<5>'))): k.append('INST("disjoint_vec_%d_%s", 300, (disjoint_vec<vector<%s, %s>>));'%(i,e,e,s))
for i,(e,s,b,l) in enumerate((('double','fixed<3,4>','row','row'),('float','dynamic<>','col','row'),('short','dynamic<>','row','col'),('int','external<>','col','col'),('double','fixed<2,2>','col','col'))): k.append('INST("disjoint_mat_%d_%s", 300, (disjoint_mat<matrix<%s, %s, %s_basis, %s_major>>));'%(i,e,e,s,b,l))
put('\n'.join(k))
for i,f in enumerate(files):
    open('P26_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
