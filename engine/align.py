"""Data members and namespace-scope variables which only changed their names are given the names of the confirmed instance,
before anything is compared. Those which remain without a counterpart get names of their own."""
import re, os, collections

def _t(t): return re.sub(r'\b(const|struct|class) ', '', t or '').strip()
def match(gone, added, same):
    """pairs of (old, new): the same type at the same place, or the only ones of their type"""
    out = {}; gone = list(gone); added = list(added)
    for i, g in list(gone):
        for j, a in list(added):
            if i == j and same(g, a): out[a['n']] = g['n']; gone.remove((i, g)); added.remove((j, a)); break
    for i, g in list(gone):
        c = [x for x in added if same(g, x[1])]
        if len(c) == 1 and len([x for x in gone if same(x[1], c[0][1])]) == 1:
            out[c[0][1]['n']] = g['n']; gone.remove((i, g)); added.remove(c[0])
    return out, gone, added

def base(c): return re.sub(r'<.*$', '', c or '')

def align(R, C):
    if R is C or getattr(C, 'aligned', None) is R: return
    C.aligned = R
    same = lambda a, b: _t(a['t']) == _t(b['t'])
    rm = {}; cm = {}         # record -> {name: new name}, of the confirmed instance and of the candidate
    for t, r in R.recs.items():
        c = C.recs.get(t)
        if not c: continue
        rn = {f['n'] for f in r['fs']}; cn = {f['n'] for f in c['fs']}
        if rn == cn: continue
        m, gone, added = match([(i, f) for i, f in enumerate(r['fs']) if f['n'] and f['n'] not in cn], [(i, f) for i, f in enumerate(c['fs']) if f['n'] and f['n'] not in rn], same)
        for i, f in added: m[f['n']] = f['n'] + '~new'
        if m: cm[t] = m
        g = {f['n']: f['n'] + '~gone' for i, f in gone}
        if g: rm[t] = g
    gm = {}
    rg = {q: g for q, g in R.globals.items() if q not in C.globals}; cg = {q: g for q, g in C.globals.items() if q not in R.globals}
    key = lambda P, g: (P.rel(g['file']), _t(g.get('t')), g.get('tu'))
    for q, g in rg.items():
        c = [x for x in cg.values() if key(C, x) == key(R, g)]
        if len(c) == 1 and len([x for x in rg.values() if key(R, x) == key(R, g)]) == 1 and c[0]['q'] not in gm: gm[c[0]['q']] = q
    if rm: rename(R, rm, {})
    if cm or gm: rename(C, cm, gm)

def rename(P, rec, glob):
    own = collections.defaultdict(dict)
    for t, m in rec.items():
        r = P.recs[t]
        for k in {t, r['q'], base(t)}:
            for a, b in m.items():
                if own[k].setdefault(a, b) != b: own[k][a] = None      # (specialisations which differ)
    own = dict(own)
    def to(c, n):
        m = own.get(c) or own.get(base(c))
        return (m.get(n) or n) if m else n
    def walk(x):
        if isinstance(x, dict):
            k = x.get('k')
            if k == 'mem': x['f'] = to(x['own'], x['f'])
            elif k == 'init' and 'fs' in x: x['fs'] = [to(x['t'], n) for n in x['fs']]
            elif k == 'cstruct':
                for y in x['f']: y[0] = to(x['t'], y[0])
            if k == 'glob' and x['q'] in glob: x['q'] = glob[x['q']]
            for y in x.values():
                if isinstance(y, (dict, list)): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    for f in P.fns.values():
        walk(f.get('body')); walk(f.get('inits'))
        for i in f.get('inits') or ():
            if i.get('f'): i['f'] = to(f.get('cls'), i['f'])
    for t, r in P.recs.items():
        m = rec.get(t)
        for f in r['fs']:
            walk(f.get('init'))
            if m and f['n'] in m: f['n'] = m[f['n']]
    for g in P.globals.values(): walk(g.get('init'))
    for a, b in glob.items():
        g = P.globals.pop(a); g['q'] = b; P.globals[b] = g
        for f in P.byq.pop(a + '#init', []):
            P.fns.pop(f['u']); f.update(u='ginit:' + b, q=b + '#init', n=b.split('::')[-1]); P.fns[f['u']] = f; P.byq.setdefault(f['q'], []).append(f)
