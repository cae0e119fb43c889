#!/usr/bin/env python3
# writes checks/P18_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P18: alignment and look-at.  Generated by tools/gen_P18.py\n#include "boxes.h"\n#include "P18_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
def Q(e,oc): return 'quaternion<%s, fixed<>, %s, %s>'%(e,'real_first' if oc[0]=='r' else 'imaginary_first','positive_cross' if oc[1]=='p' else 'negative_cross')
def mats(d,aff=False):
    out=[]
    for b in ('row','col'):
        for l in ('row','col'):
            hr,hc=(d+1,d) if b=='row' else (d,d+1)
            S=['fixed<%d, %d>'%(d+1,d+1),'fixed<%d, %d>'%(hr,hc),'dynamic<>','external<>','external<%d, %d>'%(d+1,d+1)]
            if not aff: S.insert(0,'fixed<%d, %d>'%(d,d))
            for s in S: out.append((s,b,l))
    return out
def M(e,c): return 'matrix<%s, %s, %s_basis, %s_major>'%(e,c[0],c[1],c[2])
def nm(c): return c[0].replace('<','').replace('>','').replace(', ','x')+'_'+c[1][0]+'b'+c[2][0]+'m'
V=['vector<%s, fixed<3>>','vector<%s, dynamic<>>','vector<%s, external<3>>','vector<%s, external<>>']
V2=[v.replace('3','2') for v in V]
def vn(v): return v.split(', ')[1].replace('<','').replace('>','')
k=0
for a in range(4):
    for b in range(4):
        e,f,h=[('double','double','double'),('float','float','float'),('double','float','double'),('float','double','double'),('double','double','float')][(a*4+b)%5]
        put('INST("ortho3_%s_%s_%d", 2000, (ortho3<%s, %s, %s, %s, %s>));'%(vn(V[a]),vn(V[b]),(a*4+b)%5,V[a]%e,V[b]%f,V[(a+b)%4]%h,V[b]%e,V[(a+2*b+1)%4]%h))
    put('INST("ortho2_%s", 3000, (ortho2<%s, %s, %s>));'%(vn(V2[a]),V2[a]%['double','float'][a%2],V2[(a+1)%4]%'double',V2[(a+3)%4]%['double','float'][a//2]))
for i,c in enumerate(mats(3)):
    e='double' if i%3 else 'float'; a=['double','double','float'][(i//2)%3]; r=['double','float','double'][(i//3)%3]
    put('INST("align_%s_%s%s%s", 2000, (align<%s, %s, %s>));'%(nm(c),e[0],a[0],r[0],M(e,c),V[i%4]%a,V[(i//4)%4]%r))
for i,c in enumerate(mats(2)):
    e='double' if i%3 else 'float'; a=['double','float'][i%2]
    put('INST("align2_%s_%s%s", 1000, (align2<%s, %s>));'%(nm(c),e[0],a[0],M(e,c),V2[(i+i//4)%4]%a))
for i,c in enumerate(mats(3,True)):
    e='double' if i%3 else 'float'; a=['double','double','float'][(i//2)%3]; r=['double','float','double'][(i//3)%3]
    put('INST("look_%s_%s%s%s", 3000, (look<%s, %s, %s, %s>));'%(nm(c),e[0],a[0],r[0],M(e,c),V[i%4]%a,V[(i//4)%4]%r,V[(i+1)%4]%'double'))
for i,oc in enumerate(('ip','in','rp','rn')):
    for j,e in enumerate(('double','float')):
        put('INST("qalign_%s_%s", 4000, (qalign<%s, %s, %s>));'%(oc,e[0],Q(e,oc),V[(i+j)%4]%['double','float'][(i+j)%2],V[(i+2*j+1)%4]%e))
put('INST("axis_orders", 500, (orders));')
for i,f in enumerate(files):
    open('P18_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
