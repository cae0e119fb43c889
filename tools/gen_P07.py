H='// P07: vector products.\n#include "boxes.h"\n#include "P07_common.h"\n\n'
def V(e,k,n):
    st={'F':'fixed<%d>'%n,'D':'dynamic<>','X':'external<%d>'%n,'Y':'external<>','c':'external<%d>'%n,'k':'external<>'}[k]
    return 'vector<%s%s, %s>'%('const ' if k in 'ck' else '',e,st)
es=['double','float','int']; ks='FDXYck'
files={'a':[],'b':[],'c':[],'d':[],'e':[]}
i=0
for a in ks:
    for b in ks:
        ea=es[i%3]; eb=es[(i//3+i)%3]; n=[3,2,4,5,1,7][i%6]; i+=1
        t=(a,ea[0],b,eb[0])
        files['a'].append('INST("dot_%s%s_%s%s_%d", 8000, (dots<%s, %s>));'%(t+(n,V(ea,a,n),V(eb,b,n))))
        files['b' if i%2 else 'c'].append('INST("cross_%s%s_%s%s", 8000, (crosses<%s, %s>));'%(t+(V(ea,a,3),V(eb,b,3))))
        files['d'].append('INST("perp_dot_%s%s_%s%s", 5000, (perps<%s, %s>));'%(t+(V(ea,a,2),V(eb,b,2))))
        files['e'].append('INST("outer_%s%s_%s%s_%d", 6000, (outers<%s, %s>));'%(t+(n,V(ea,a,n),V(eb,b,(n%4)+1))))
i=0
for tr in ['FFF','FFF','DDD','DFD','FDY','XFc','YDk','DDD','kFX']:
    e=[es[i%3],es[(i//2)%3],es[(i//3+i)%3]]; i+=1
    files['d'].append('INST("triple_%s_%s", 8000, (triples<%s>));'%(tr,''.join(x[0] for x in e),', '.join(V(x,k,3) for x,k in zip(e,tr))))
for n,f in files.items():
    open('/verif/checks/P07_%s.cpp'%n,'w').write(H+'\n'.join(f)+'\n')
