#!/usr/bin/env python3
# writes checks/P27_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P27: failed allocations and allocators.  Generated by tools/gen_P27.py\n#include "boxes.h"\n#include "P27_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
al=[('T0','T0'),('T0','Std'),('Std','T0'),('T0','T1'),('Std','Std')]
lb=[('row','row'),('row','col'),('col','row'),('col','col')]
es=['double','float','int','double']
for i,(a,b) in enumerate(al):
    for j in range(2):
        e=es[(i+2*j)%4]; B,L=lb[(i+2*j+i//4)%4]
        put('INST("vec_%s%s_%s_%s%s", 4000, (faults<VW<%s, %s, %s, %s_basis, %s_major>>));'%(a,b,e,B[0],L[0],e,a,b,B,L))
        e=es[(i+2*j+1)%4]; B,L=lb[(i+2*j+1)%4]
        put('INST("mat_%s%s_%s_%s%s", 4000, (faults<MW<%s, %s, %s, %s_basis, %s_major>>));'%(a,b,e,B[0],L[0],e,a,b,B,L))
NEW='''
void* operator new(size_t n) { return take(n, 99, NEW, NEW.armed); }
void* operator new[](size_t n) { return take(n, 99, NEW, NEW.armed); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p, 99, NEW, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p, 99, NEW, 0, false); }
void operator delete(void* p) noexcept { give(p, 99, NEW, 0, false); }
void operator delete[](void* p) noexcept { give(p, 99, NEW, 0, false); }
void operator delete(void* p, size_t) noexcept { give(p, 99, NEW, 0, false); }
void operator delete[](void* p, size_t) noexcept { give(p, 99, NEW, 0, false); }
'''
for i,f in enumerate(files):
    open('P27_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n'+(NEW if i==0 else ''))
