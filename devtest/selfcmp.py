# product of the model with itself, without the congruence shortcut: no difference may be reported
import sys, time, collections, traceback
sys.path.insert(0,'/verif/engine')
from prog import Prog
import compare
P=Prog('/verif/model')
Q=Prog(sys.argv[2] if len(sys.argv)>2 else '/repo')
pat=sys.argv[1] if len(sys.argv)>1 else ''
pr=compare.Pair(P,Q)
tot=collections.Counter(); why=collections.Counter()
t0=time.time()
for u,f in sorted(P.fns.items(), key=lambda x:x[1]['q']):
    g=Q.fns.get(u)
    if not ('body' in f or 'inits' in f) or pat not in f['q'] or g is None: continue
    t=time.time()
    try: r=pr.explore(f,g,float(sys.argv[3]) if len(sys.argv)>3 else 4,2,400)
    except Exception as e:
        traceback.print_exc(limit=-3); print('CRASH',f['q'],e); tot['crash']+=1; continue
    tot[r['status']]+=1
    if r['status']=='differs': print('DIFF',f['q'],f['tu'],r['what'][:3],r['decisions'][:6])
    if r['status']=='inconclusive': why[r['why']]+=1
    if pat: print(f['q'],r['status'],r.get('paths'),r.get('good'),r.get('U'),r.get('why'),r.get('notes'),'%.1f'%(time.time()-t))
print(dict(tot),time.time()-t0)
for k,v in why.most_common(40): print(v,k)
