#!/usr/bin/env python3
# writes checks/P17_[a-h].cpp
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../checks")
H='// P17: affine transforms.  Generated by tools/gen_P17.py\n#include "boxes.h"\n#include "P17_common.h"\n\n'
files=[[] for _ in range(8)]; n=0
def put(s):
    global n
    files[n%8].append(s); n+=1
def mats():
    out=[]
    for b in ('row','col'):
        for l in ('row','col'):
            sw=lambda r,c:(r,c) if b=='row' else (c,r)
            for s in ('fixed<2, 2>','fixed<%d, %d>'%sw(3,2),'fixed<3, 3>','fixed<%d, %d>'%sw(4,3),'fixed<4, 4>','fixed<%d, %d>'%sw(5,4),'dynamic<>','external<>','external<4, 4>','external<%d, %d>'%sw(4,3)):
                out.append((s,b,l))
    return out
def M(e,c): return 'matrix<%s, %s, %s_basis, %s_major>'%(e,c[0],c[1],c[2])
def nm(c): return c[0].replace('<','').replace('>','').replace(', ','x')+'_'+c[1][0]+'b'+c[2][0]+'m'
V=['vector<%s, fixed<3>>','vector<%s, dynamic<>>','vector<%s, external<3>>','vector<%s, external<>>']
E=['double','float','int']; L=mats()
def lin(c): return c[0] not in ('fixed<2, 2>','fixed<3, 2>','fixed<2, 3>')
for i,c in enumerate(L):
    e=E[(i+i//10)%3]; f=E[(i//3)%3]; fr=['double','float'][i%2]; er=['float','double'][(i//2)%2]
    s0=['double','int','float'][i%3]; s1=['int','float','double'][(i//2)%3]
    v=V[(i+i//10)%4]; w=V[(i//3+i//10)%4]
    t='%s_%s'%(nm(c),e[0])
    if c[0]!='fixed<2, 2>':
        put('INST("trans_%s", 700, (trans<%s, %s, %s, %s>));'%(t,M(e,c),v%f,s0,s1))
        put('INST("scale_%s", 700, (scale<%s, %s, %s, %s>));'%(nm(c)+'_'+er[0],M(er,c),w%f,s0,s1))
        if e=='int': put('INST("scale_%s", 400, (scale<%s, %s, %s, %s>));'%(t,M(e,c),w%'int','int','int'))
        put('INST("invert_%s", 700, (invert<%s>));'%(nm(c)+'_'+er[0],M(er,c)))
        if i%4==0: put('INST("invert_%s_i", 400, (invert<%s>));'%(nm(c),M('int',c)))
    put('INST("basis_%s", 700, (basis<%s, %s>));'%(t,M(e,c),w%f))
    put('INST("apply_%s_%s", 900, (apply<%s, %s>));'%(nm(c),er[0]+fr[0],M(er,c),v%fr))
    if i%2: put('INST("apply_%s_i%s", 600, (apply<%s, %s>));'%(nm(c),f[0],M('int',c),w%f))
    put('INST("misc_%s", 400, (misc<%s, %s>));'%(t,M(e,c),v%f))
    if lin(c):
        o=[x for x in L if lin(x)][(i*7+3)%28]
        put('INST("linear_%s_%s_%s%s", 700, (linear<%s, %s, %s>));'%(nm(c),nm(o),er[0],fr[0],M(er,c),M(e,o),w%fr))
    sq=[x for x in L if x[1]==c[1] and x[2]==c[2] and x[0] in ('fixed<2, 2>','fixed<3, 3>','fixed<4, 4>','dynamic<>','external<>','external<4, 4>')]
    if c in sq:
        for k,o in enumerate(sq):
            if 'x' in nm(o).split('_')[0] and 'x' in nm(c).split('_')[0] and o[0].split('<')[1]!=c[0].split('<')[1]: continue
            e1=['double','float','int'][(i+k)%3]; e2=['double','float','int'][(k)%3]
            put('INST("concat_%s_%s_%s%s", 500, (concat<%s, %s>));'%(nm(c),nm(o).split('_')[0],e1[0],e2[0],M(e1,c),M(e2,o)))
for i,f in enumerate(files):
    open('P17_%s.cpp'%'abcdefgh'[i],'w').write(H+'\n'.join(f)+'\n')
