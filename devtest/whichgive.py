import sys
sys.path.insert(0,'/verif/engine')
from prog import Prog
import explore
P=Prog('/verif/model')
pat=sys.argv[1]; n=0
for f in sorted(P.fns.values(), key=lambda f:f['q']):
    if not ('body' in f or 'inits' in f): continue
    try: st,why,uk=explore.explore_single(P,f,int(sys.argv[2]) if len(sys.argv)>2 else 1,budget=3)
    except Exception as e: why={'%s %s'%(type(e).__name__,e):1}; uk={}
    h=[k for k in list(why)+list(uk) if pat in k]
    if h: print(f['q'],f.get('tu'),f.get('l'),h[:3]); n+=1
    if n>40: break
