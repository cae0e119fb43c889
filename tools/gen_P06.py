H='// P06: matrix expressions.\n#include "boxes.h"\n#include "P06_common.h"\n\n'
B={'r':'row_basis','c':'col_basis'}; L={'r':'row_major','c':'col_major'}
def M(e,k,bl):
    s,dim=k[0],k[1:]
    st={'F':'fixed<%s>','X':'external<%s>','D':'dynamic<>','Y':'external<>'}[s]
    if dim: st=st%', '.join(dim)
    return 'matrix<%s, %s, %s, %s>'%(e,st,B[bl[0]],L[bl[1]])
combos=[
 ('F33 F33 F33','double double double','rr rr rr','double double',[(0,0,0),(2,2,2)]),
 ('F33 F33 F33','float double int','rc cr cc','double int',[(1,0,2),(2,1,0)]),
 ('F22 F22 F22','int int int','cc cc rr','int int',[(0,1,0),(2,2,1)]),
 ('F23 F23 F23','double float double','rr rc cr','float double',[(0,2,1),(2,0,0)]),
 ('F44 D F44','float float float','cr rc rr','float float',[(0,2,1)]),
 ('D D D','double double double','rr cc rc','double float',[(0,0,0),(2,2,2)]),
 ('D D D','int float double','cc rr cr','int float',[(1,2,0),(2,0,1)]),
 ('D F32 D','float int float','rc cr rr','float int',[(2,2,0)]),
 ('X33 F33 X33','double double float','cc cr rc','double double',[(0,0,1),(1,2,0)]),
 ('Y Y D','double float double','rr cc cr','float double',[(0,1,2)]),
 ('Y D X22','int int int','rc cc rr','int int',[(1,0,0)]),
]
files=[[] for _ in range(9)]
j=0
for st,el,bl,sc,modes in combos:
    st=st.split();el=el.split();sc=sc.split();bl=bl.split()
    for m in modes:
        m=tuple(0 if s[0] in 'XY' and x==2 else x for s,x in zip(st,m))
        lab='_'.join(s+b+e[0]+'lcr'[x] for s,b,e,x in zip(st,bl,el,m))+'_'+sc[0][0]+sc[1][0]
        files[j%8].append('INST("expr_%s", 6000, (exprs<%d, %d, %d, %s, %s>));'%((lab,)+m+(', '.join(M(e,s,b) for e,s,b in zip(el,st,bl)),', '.join(sc)))); j+=1
cs=[('F33','F33'),('F23','F23'),('D','D'),('D','F32'),('F44','D'),('X33','F33'),('X32','D'),('Y','D'),('Y','Y')]
es=['double','float','int']; i=0; bls=['rr','rc','cr','cc']
for a,b in cs:
    for k in range(3):
        ea=es[k]; eb=es[(k+i)%3]; s=es[(k+2*i)%3]; 
        if ea=='int': eb=s='int' if k else s
        files[8].append('INST("compound_%s%s%s_%s%s%s_%s", 6000, (compound<%s, %s, %s>));'%(a,ea[0],bls[i%4],b,eb[0],bls[(i//2+k)%4],s,M(ea,a,bls[i%4]),M(eb,b,bls[(i//2+k)%4]),s)); i+=1
    files[8].append('INST("nodes_%s_%s", 5000, (named_nodes<%s, %s>));'%(a,b,M('double',a,bls[i%4]),M(es[i%3],b,bls[(i+1)%4])))
for n,f in zip('abcdefghi',files):
    open('/verif/checks/P06_%s.cpp'%n,'w').write(H+'\n'.join(f)+'\n')
