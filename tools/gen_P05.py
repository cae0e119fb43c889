import itertools
H='// P05: vector expressions.\n#include "boxes.h"\n#include "P05_common.h"\n\n'
def V(e,k):
    st={'F2':'fixed<2>','F3':'fixed<3>','F4':'fixed<4>','F5':'fixed<5>','D':'dynamic<>','X3':'external<3>','X4':'external<4>','Y':'external<>','c3':'external<3>','k':'external<>'}[k]
    return 'vector<%s%s, %s>'%('const ' if k in('c3','k') else '',e,st)
combos=[ # (storages, elems, scalars, modes)
 ('F3 F3 F3','double double double','double double',[(0,0,0),(2,2,2),(1,2,0)]),
 ('F3 F3 F3','float double int','double int',[(1,0,2),(2,1,0)]),
 ('F2 F2 F2','int int int','int int',[(0,1,0),(2,2,1)]),
 ('F4 D F4','float float float','float float',[(0,2,1),(2,0,2)]),
 ('D D D','double double double','double float',[(0,0,0),(2,2,2),(2,1,0)]),
 ('D D D','int float double','int float',[(1,2,0),(2,0,1)]),
 ('D F3 D','float int float','float int',[(2,2,0),(0,0,1)]),
 ('X3 F3 X3','double double float','double double',[(0,2,1),(1,0,0)]),
 ('Y Y D','double float double','float double',[(0,1,2),(1,0,1)]),
 ('c3 F3 D','double double double','double double',[(0,2,2),(0,0,1)]),
 ('k D Y','float double float','double float',[(0,2,0),(1,1,1)]),
 ('X4 Y F4','int int int','int int',[(0,0,2),(1,1,2)]),
 ('F5 F5 D','double int float','int double',[(0,2,2),(2,0,1)]),
 ('D k X3','double int double','int int',[(2,0,1),(0,1,0)]),
]
files=[[] for _ in range(8)]
j=0
for st,el,sc,modes in combos:
    st=st.split();el=el.split();sc=sc.split()
    for m in modes:
        m=tuple(0 if (s in('c3','k') and x==2) else x for s,x in zip(st,m))
        lab='_'.join(s+e[0]+'lcr'[x] for s,e,x in zip(st,el,m))+'_'+sc[0][0]+sc[1][0]
        files[j%7].append('INST("expr_%s", 7000, (exprs<%d, %d, %d, %s, %s>));'%((lab,)+m+(', '.join(V(e,s) for e,s in zip(el,st)),', '.join(sc)))); j+=1
cs=[('F3','F3'),('D','D'),('D','F3'),('F4','D'),('X3','F3'),('Y','D'),('F3','c3'),('Y','k'),('X4','Y')]
es=['double','float','int']; i=0
for a,b in cs:
    for k in range(3):
        ea=es[k]; eb=es[(k+i)%3]; s=es[(k+2*i)%3]; i+=1
        if ea=='int' : eb=s='int' if k else s
        files[7].append('INST("compound_%s%s_%s%s_%s", 7000, (compound<%s, %s, %s>));'%(a,ea[0],b,eb[0],s,V(ea,a),V(eb,b),s))
    files[7].append('INST("nodes_%s_%s", 5000, (named_nodes<%s, %s>));'%(a,b,V('double',a),V(es[i%3],b)))
for n,f in zip('abcdefgh',files):
    open('/verif/checks/P05_%s.cpp'%n,'w').write(H+'\n'.join(f)+'\n')
print([len(f) for f in files])
