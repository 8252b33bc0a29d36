import sys, time, collections, traceback
sys.path.insert(0,'/verif/engine')
from prog import Prog
import explore
P=Prog('/verif/model')
pat=sys.argv[1] if len(sys.argv)>1 else ''
U=int(sys.argv[2]) if len(sys.argv)>2 else 1
tot=collections.Counter(); whys=collections.Counter(); unks=collections.Counter(); crashes=collections.Counter(); bad={}
t0=time.time()
fs=sorted((f for f in P.fns.values() if ('body' in f or 'inits' in f) and pat in f['q'] and '/stubs/' not in str(f.get('file',''))), key=lambda f:f['q'])
for f in fs:
    try:
        st,why,uk=explore.explore_single(P,f,U,budget=3)
    except Exception as e:
        tb=traceback.extract_tb(e.__traceback__)[-1]
        crashes['%s %s @%s:%d'%(type(e).__name__,e,tb.filename.split('/')[-1],tb.lineno)]+=1; tot['crash']+=1
        if pat: print('CRASH',f['q'],type(e).__name__,e,tb.filename.split('/')[-1],tb.lineno)
        if len(sys.argv)>3: traceback.print_exc()
        continue
    tot['fns']+=1
    if st['give']: tot['fn_give']+=1
    if st['restart']: tot['fn_restart']+=1; print('RESTART',f['q'])
    if st['cut']: tot['fn_cut']+=1
    if not st['ret'] and not st['throw']: tot['fn_noret']+=1
    for k in why: whys[k]+=1
    for k in uk: unks[k]+=1
    if pat: print(f['q'],f.get('tu'),dict(st),dict(why),dict(uk))
print(dict(tot),time.time()-t0)
for n,c in (('give',whys),('unk',unks),('crash',crashes)):
    print('==',n)
    for k,v in c.most_common(70): print(v,k)
