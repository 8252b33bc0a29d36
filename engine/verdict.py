"""Decides the cross-checked part of a property: every function which carries it against its confirmed instance."""
import re, os, time, json, collections, multiprocessing, signal
from prog import Prog, VERIF, DRV
from congr import Congr
from interp import OPAQUE, norm_t
import compare, anchors as AN

MODEL = os.path.join(VERIF, 'model')
G = {}

def defined(f): return f is not None and ('body' in f or 'inits' in f)
LAMU = re.compile(r'@Sa|lambda|@\d+@')

class Verdict:
    def __init__(self, tree, jobs=8):
        self.R = Prog(MODEL); self.C = Prog(tree); self.tree = tree; self.jobs = jobs
        self.pair = compare.Pair(self.R, self.C)
        self.cr = self.pair.cr; self.cc = self.pair.cc
        self.cp = {}; self.res = {}; self.proved = {}
        self.callers = None
    # ---------------------------------------------------------------- functions
    def mine(self, f): return f['file'].startswith(MODEL) or f['file'].startswith(DRV)
    def rel(self, f): return self.R.rel(f['file'])
    def select(self, pats, pid=None):
        out = []; drv = re.compile(r'^drv_(C\d\d_)*%s_' % re.escape(pid)) if pid else None
        for f in self.R.fns.values():
            if not defined(f) or not self.mine(f): continue
            if drv and drv.match(f['q']): out.append(f); continue
            for p in pats:
                if re.search(p[2:], self.rel(f)) if p.startswith('f:') else re.search(p, f['q']): out.append(f); break
        return sorted(out, key=lambda f: (f['q'], f['u']))
    def counterpart(self, f):
        u = f['u']
        if u in self.cp: return self.cp[u]
        g = self.C.fns.get(u)
        if not defined(g):
            g = None
            c = [x for x in self.C.byq.get(f['q'], []) if defined(x) and len(x['ps']) == len(f['ps']) and [norm_t(clean(p['t'])) for p in x['ps']] == [norm_t(clean(p['t'])) for p in f['ps']]
                 and bool(x.get('const')) == bool(f.get('const'))]
            if len(c) == 1: g = c[0]
            elif not c:
                c = [x for x in self.C.byq.get(f['q'], []) if defined(x) and len(x['ps']) == len(f['ps'])]
                same = [x for x in self.R.byq.get(f['q'], []) if defined(x) and len(x['ps']) == len(f['ps'])]
                if len(c) == 1 and len(same) == 1: g = c[0]
        self.cp[u] = g
        return g
    def public(self, f):
        """can a user of the library call it with any arguments?"""
        if f.get('anon') or f.get('acc') in ('private', 'protected'): return False
        if re.search(r'::impl::|::impl$|\(anonymous|_impl$|::_|^_', f['q']): return False
        if f['file'].endswith(('.cpp', '.c')):
            d = self.R.decls.get(f['u'])
            return bool(d and d['file'].endswith(('.h', '.hpp')))
        return True
    def where(self, f, C=True):
        P = self.C if C else self.R
        return '%s:%s' % (P.rel(f['file']), f['l'])
    # ---------------------------------------------------------------- congruence with proved parts swapped in
    def deepc(self, g):
        if not self.proved: return self.cc.deep(g)
        seen = {}; st = [(self.cc, g)]; types = {}; gd = {}
        top = None
        while st:
            cg, x = st.pop()
            if x is not g or True:
                p = self.proved.get(id(x)) if cg is self.cc else None
                if p is not None: cg, x = self.cr, p
            if id(x) in seen: continue
            h, refs, _ = cg.shallow(x); seen[id(x)] = h
            if top is None: top = h
            for t in refs[1]: types[t] = cg
            if x.get('cls'): types[x['cls']] = cg
            us = set(refs[0])
            for q in refs[2]:
                if q not in gd:
                    gl = cg.P.globals.get(q); o = []; rr = (set(), set(), set())
                    if gl and 'init' in gl: cg.walk(gl['init'], {}, o, rr)
                    gd[q] = '|'.join(o); us |= rr[0]
                    for t in rr[1]: types[t] = cg
            for v in us:
                k = cg.P.fns.get(v)
                if not defined(k): continue
                if OPAQUE.match(k['q']) and k.get('cls') != x.get('cls'): continue
                st.append((cg, k))
            for t in list(refs[1]):
                rec = cg.P.recs.get(norm_t(t))
                if rec:
                    for m in rec['ms']:
                        if m.get('sm') == 'dtor':
                            k = cg.P.fns.get(m['u'])
                            if k and 'body' in k and not OPAQUE.match(k['q']): st.append((cg, k))
        sr = {id(self.cr): set(), id(self.cc): set()}
        from congr import clean
        import hashlib
        recs = set()
        for t, cg in types.items():
            s = cg.record(t, set())
            recs.add(s)
        return hashlib.md5((top + '|' + '|'.join(sorted(set(seen.values()))) + '|' + '|'.join(sorted(recs)) + '|' + '|'.join(sorted(q + '=' + x for q, x in gd.items()))).encode()).hexdigest()[:20]
    def deepr(self, f):
        k = ('r', id(f))
        if k in self.res: return self.res[k]
        sv = self.proved, self.cc; 
        self.proved = {0: 0}; cc = self.cc; self.cc = self.cr
        try: h = self.deepc(f)
        finally: self.proved, self.cc = sv
        self.res[k] = h
        return h
    def congruent(self, f, g):
        if self.cr.deep(f) == self.cc.deep(g): return True
        return bool(self.proved) and self.deepr(f) == self.deepc(g)
    # ---------------------------------------------------------------- call graph of the reference
    def closure(self, fs):
        seen = {}; st = list(fs)
        while st:
            f = st.pop()
            if id(f) in seen: continue
            seen[id(f)] = f
            _, refs, _ = self.cr.shallow(f)
            us = set(refs[0])
            for q in refs[2]:
                gl = self.R.globals.get(q)
                if gl and 'init' in gl:
                    rr = (set(), set(), set()); self.cr.walk(gl['init'], {}, [], rr); us |= rr[0]
            for t in refs[1]:
                rec = self.R.recs.get(norm_t(t))
                if rec:
                    for m in rec['ms']:
                        if m.get('sm') == 'dtor': us.add(m['u'])
            for u in us:
                k = self.R.fns.get(u)
                if not defined(k): continue
                if OPAQUE.match(k['q']) and k.get('cls') != f.get('cls'): continue
                st.append(k)
        return list(seen.values())
    def callers_of(self, f):
        if self.callers is None:
            self.callers = collections.defaultdict(list)
            for g in self.R.fns.values():
                if not defined(g): continue
                for u in self.cr.shallow(g)[1][0]: self.callers[u].append(g)
        return self.callers.get(f['u'], [])
    def changed(self, f):
        g = self.counterpart(f)
        return g is None or self.cr.shallow(f)[0] != self.cc.shallow(g)[0]
    # ---------------------------------------------------------------- exploration in worker processes
    def run(self, tasks, budget, U):
        """[(f, g)] -> results, by forked workers"""
        if not tasks: return []
        if self.pair.walklib and __import__('interp').Interp.REFLIB is None: self.pair.walklib()
        G['v'] = self; G['t'] = tasks; G['b'] = budget; G['U'] = U
        ctx = multiprocessing.get_context('fork')
        # one systematic exploration per task; spare processors walk at random
        nw = max(0, min(7, self.jobs // len(tasks) - 1)); nw = max(nw, 1)
        G['dl'] = [ctx.Value('d', time.time() + 100 * budget) for _ in tasks]
        jobs = [(i, 0) for i in range(len(tasks))] + [(i, w) for w in range(1, nw + 1) for i in range(len(tasks))]
        res = [None] * len(tasks); dif = {}; walked = [0] * len(tasks); t1 = time.time()
        if self.jobs == 1: jobs = jobs[:len(tasks)]
        with ctx.Pool(min(self.jobs, len(jobs)), maxtasksperchild=4) as p:
            for i, w, t, r in p.imap_unordered(work, jobs, 1):
                if r['status'] == 'differs':
                    dif.setdefault(i, r); G['dl'][i].value = 0
                if w == 0:
                    res[i] = r
                    if r['status'] == 'equal' and (r.get('U') or 0) >= U: G['dl'][i].value = min(G['dl'][i].value, time.time() + max(2.0, min(budget, 2 * t)))
                    elif r['status'] == 'inconclusive' and not r.get('good'): G['dl'][i].value = 0
                else: walked[i] += r.get('paths', 0)
        out = []
        for i in range(len(tasks)):
            r = dif.get(i) or res[i]
            r['paths'] = res[i].get('paths', 0) + walked[i]; r['walked'] = walked[i]
            out.append(r)
        return out
    def height(self, f):
        return len(self.closure([f]))

    def decide(self, pid, pats, budget=40.0, U=2, wall=500.0, log=None):
        """-> dict(violations, functions, notes)"""
        t0 = time.time()
        an = self.select(pats, pid)
        if not an: raise SystemExit('%s: no function carries the property any more' % pid)
        out = dict(anchors=len(an), functions=[], violations=[], notes=[], paths=0, congruent=0, explored=0, inconclusive=0, gone=0)
        cl = self.closure(an)
        pend = []
        for f in an:
            g = self.counterpart(f)
            if g is None or '_hist_' in f['q']: continue
            if not self.congruent(f, g): pend.append((f, g))
        self.mres = {}
        if pend:
            # changed definitions first: what is proved equal makes its users congruent
            mods = []
            for f in cl:
                g = self.counterpart(f)
                if g is None or id(f) == id(g): continue
                if self.mine(f) and self.cr.shallow(f)[0] != self.cc.shallow(g)[0]: mods.append((f, g))
            if not mods:   # only records or constants differ
                mods = [p for p in pend]
            mods.sort(key=lambda p: self.height(p[0]))
            G['mods'] = mods
            mres = {}
            for p, r in zip(mods, self.run(mods, budget, U)):
                mres[id(p[0])] = (p, r); out['paths'] += r.get('paths', 0); out['explored'] += 1
                if r['status'] == 'equal': self.proved[id(p[1])] = p[0]
            self.mres = mres
            aset = {id(f) for f in an}
            # public or unescaped mismatches
            todo = []
            for f, g in pend:
                if id(f) in mres: continue
                if '_hist_' in f['q'] or self.congruent(f, g): continue
                todo.append((f, g))
            direct = []; below = []
            for (f, g), r in list(mres.values()):
                if r['status'] == 'differs':
                    cs = [c for c in self.callers_of(f) if self.mine(c) and c is not f]
                    esc = [c for c in cs if self.changed(c)]
                    if self.public(f) or not cs or any(self.counterpart(c) is None for c in cs): direct.append((f, g, r))
                    elif esc: out['notes'].append('%s behaves differently but so may its changed callers: decided there' % f['q'])
                    else: below.append((f, g, r, cs))
            if below and not direct:
                # not reachable from outside on its own: does any use of it notice?
                t = {id(c): (c, self.counterpart(c)) for x in below for c in x[3] if id(c) not in mres}
                t = sorted(t.values(), key=lambda p: self.height(p[0]))
                left = wall - (time.time() - t0)
                b = max(4.0, min(budget, left * self.jobs / max(1, len(t)) * .5))
                for p, r in zip(t, self.run(t, b, U)):
                    mres[id(p[0])] = (p, r); out['paths'] += r.get('paths', 0); out['explored'] += 1
                    if r['status'] == 'equal': self.proved[id(p[1])] = p[0]
                for f, g, r, cs in below:
                    if all(mres[id(c)][1]['status'] == 'equal' for c in cs):
                        out['notes'].append('%s behaves differently, but none of its %d users can tell' % (f['q'], len(cs)))
                        self.proved[id(g)] = f
                    else: direct.append((f, g, r))
                todo = [p for p in todo if id(p[0]) not in mres and not self.congruent(*p)]
            elif below: direct += [x[:3] for x in below]
            if direct:
                for f, g, r in direct: out['violations'].append(self.violation(f, g, r))
            else:
                todo.sort(key=lambda p: self.height(p[0]))
                left = wall - (time.time() - t0)
                if todo and left > 5:
                    b = max(4.0, min(budget, left * self.jobs / len(todo) * .8))
                    for (f, g), r in zip(todo, self.run(todo, b, U)):
                        mres[id(f)] = ((f, g), r); out['paths'] += r.get('paths', 0); out['explored'] += 1
                        if r['status'] == 'differs': out['violations'].append(self.violation(f, g, r))
        # histories from a new domain on: what was proved within bounds is not taken for granted there
        hist = [(f, self.counterpart(f)) for f in an if '_hist_' in f['q']]
        hist = [(f, g) for f, g in hist if g is not None and self.cr.deep(f) != self.cc.deep(g)]
        left = wall - (time.time() - t0)
        if hist and not out['violations'] and left > 5:
            b = max(6.0, min(budget * .6, left * self.jobs / len(hist) * .7))
            for (f, g), r in zip(hist, self.run(hist, b, 1)):
                self.mres[id(f)] = ((f, g), r); out['paths'] += r.get('paths', 0); out['explored'] += 1
                if r['status'] == 'differs': out['violations'].append(self.violation(f, g, r))
        for f in an:
            g = self.counterpart(f)
            e = dict(function=f['q'], at=self.where(g) if g else self.where(f, False) + ' (confirmed tree)')
            if g is None: e['result'] = 'no counterpart'; out['gone'] += 1
            elif id(f) in self.mres:
                r = self.mres[id(f)][1]; e['result'] = r['status']; e['how'] = 'paths followed: %s, complete up to %s' % (r.get('paths'), r.get('U'))
                if r['status'] == 'inconclusive': out['inconclusive'] += 1; e['why'] = r.get('why')
            elif self.cr.deep(f) == self.cc.deep(g) or '_hist_' not in f['q'] and self.congruent(f, g): e['result'] = 'equal'; e['how'] = 'congruent'; out['congruent'] += 1
            else: e['result'] = 'not decided'; out['inconclusive'] += 1
            out['functions'].append(e)
        out['wall'] = time.time() - t0
        return out
    def beneath(self, f):
        """changed functions which a history uses"""
        seen = set(); st = [f]; out = []
        while st:
            x = st.pop()
            if id(x) in seen: continue
            seen.add(id(x))
            if self.mine(x) and not x['file'].startswith(DRV):
                g = self.counterpart(x)
                if g is not None and self.cr.shallow(x)[0] != self.cc.shallow(g)[0]: out.append(g)
            refs = self.cr.shallow(x)[1]
            us = set(refs[0])
            for t in refs[1]:
                rec = self.R.recs.get(norm_t(t))
                if rec: us |= {m['u'] for m in rec['ms'] if m.get('sm') == 'dtor'}
            for u in us:
                k = self.R.fns.get(u)
                if defined(k): st.append(k)
        return sorted(out, key=lambda g: g['q'])
    def violation(self, f, g, r):
        m = r['what']
        if '_hist_' in f['q']:
            ch = self.beneath(f)
            if ch: return dict(rule='cross-check', function=ch[0]['q'], at=self.where(ch[0]), what='seen by %s: %s' % (f['q'], m[0]), confirmed=str(m[1])[:600], found=str(m[2])[:600], decisions=r.get('decisions'),
                               changed=['%s %s' % (x['q'], self.where(x)) for x in ch])
        return dict(rule='cross-check', function=f['q'], at=self.where(g), what=str(m[0]), confirmed=str(m[1])[:600], found=str(m[2])[:600], decisions=r.get('decisions'))

def clean(t):
    from congr import clean as c
    return c(t)
def work(a):
    i, w = a
    v = G['v']; f, g = G['t'][i]; t0 = time.time()
    try: r = v.pair.explore(f, g, G['b'] if w == 0 else G['b'] * .6, G['U'], 20000, w, G['dl'][i])
    except RecursionError: r = dict(status='inconclusive', why='recursion depth', paths=0)
    except Exception as e:
        import traceback
        r = dict(status='inconclusive', why='internal: %s %s' % (type(e).__name__, str(e)[:200]), paths=0, tb=traceback.format_exc()[-600:])
    m = r.get('what')
    if m is not None: r['what'] = tuple(str(x)[:800] for x in m[:3])
    return i, w, time.time() - t0, r
