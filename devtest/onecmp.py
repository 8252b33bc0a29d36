import os
import sys, time
sys.path.insert(0,'/verif/engine')
from prog import Prog
import compare
from terms import *
P=Prog('/verif/model')
Q=Prog(sys.argv[2] if len(sys.argv)>2 else '/repo')
pr=compare.Pair(P,Q)
o=pr.diff
def diff(IR,rr,IC,rc,fr,fc):
    m=o(IR,rr,IC,rc,fr,fc)
    if m and '-q' not in sys.argv:
        print('--- mismatch',m[:3])
        for n,I,r in (('R',IR,rr),('C',IC,rc)):
            print(n,r.kind,r.val)
            for e in I.S.trace: print('   ',n,e[0],e[1],show(e[2],9)[:400])
            for k,v in I.S.cells.items():
                if not (k[0].op=='loc'): print('   ',n,'cell',show(locptr(k)),'=',show(v) if isinstance(v,T) else v)
        for L,D in IC.S.pc.items(): print('   pc',show(L,9)[:300],D)
        for L,D in IC.S.rep.items(): print('   rep',show(L,9)[:300],D)
    return m
pr.diff=diff
for f in P.byq[sys.argv[1]]:
    g=Q.fns.get(f['u'])
    if 'body' not in f or g is None: continue
    if len(sys.argv)>3 and sys.argv[3]!='-q' and sys.argv[3] not in f["tu"]: continue
    r=pr.explore(f,g,10,2,2000); print({k:str(v)[:300] for k,v in r.items()})
    if r["status"]=="differs": break
