"""Cross-check of one function against its confirmed instance: both are followed along the same decisions from the
same symbolic inputs; every observable effect (outcome, result, final memory, calls into user code) must agree."""
import time, random, collections, zlib
from terms import *
from state import *
import state as _state
from interp import Interp, norm_t
from explore import Ctl2, Walk, Restart, Result, execute
from congr import Congr
from align import align
import inv as _inv

class Inconclusive(Exception): pass

class Mismatch:
    def __init__(self, what, a, b, pc, I): self.what = what; self.a = a; self.b = b; self.pc = pc
    def text(self):
        s = self.what
        return s

class Pair:
    """comparison context of two program databases"""
    def __init__(self, ref, cand):
        self.R = ref; self.C = cand
        align(ref, cand)
        self.cr = Congr(ref); self.cc = Congr(cand)
        self.memo = {}
        self.eqv = {}
        self.mov = None
        fr = fields_of(ref); fc = fields_of(cand)
        self.newf = fc - fr; self.gonef = fr - fc
        self.inprogress = set()
        lib = set()
        def walk(x):
            if isinstance(x, dict):
                f = x.get('fn')
                if isinstance(f, dict) and 'q' in f: lib.add(f['q'])
                for y in x.values():
                    if isinstance(y, (dict, list)): walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        self.walklib = lambda: ([walk(f.get('body')) or walk(f.get('inits')) for f in ref.fns.values()], setattr(Interp, 'REFLIB', lib))
    # ------------------------------------------------------------ function identity
    def fnkey(self, prog, u, q):
        f = prog.fns.get(u)
        if f is None or not ('body' in f or 'inits' in f): return 'ext:' + q
        c = self.cr if prog is self.R else self.cc
        h = c.deep(f)
        return self.eqv.get(h, h)
    def canon(self, I, v):
        P = I.P; hist = I.inhist()
        def f(t):
            if t.op == 'fn':
                # (histories store pointers to functions without comparing what these do: that is decided on their own)
                if hist and 'lambda' not in t.args[0] and t.args[0] in self.R.fns and t.args[0] in self.C.fns: return mk('fnc', 'u:' + t.args[0])
                return mk('fnc', self.fnkey(P, t.args[0], t.args[1]))
            return None
        if isinstance(v, (T, tuple)): v = I.cval(v) if isinstance(v, T) else tuple(I.cval(x) if isinstance(x, T) else x for x in v)
        return subst(v, f) if isinstance(v, (T, tuple)) else v

    # ------------------------------------------------------------ exploration
    def compare(self, fr, fc, budget=20.0, Umax=2, maxpaths=4000):
        """-> dict(status=equal|differs|inconclusive, ...)"""
        k = (id(fr), id(fc))
        if k in self.memo: return self.memo[k]
        if self.cr.deep(fr) == self.cc.deep(fc):
            r = dict(status='equal', how='congruent', paths=0, U=None)
        elif k in self.inprogress:
            return dict(status='inconclusive', why='recursive obligation', paths=0)
        else:
            self.inprogress.add(k)
            r = self.explore(fr, fc, budget, Umax, maxpaths)
            self.inprogress.discard(k)
            if r['status'] == 'equal': self.eqv[self.cc.deep(fc)] = self.eqv.get(self.cr.deep(fr), self.cr.deep(fr))
        self.memo[k] = r
        return r
    def explore(self, fr, fc, budget, Umax, maxpaths, walk=0, deadline=None):
        """walk 0: systematic, loops and sizes up to 1, 2 .. Umax and further while it is cheap; walk n > 0: random walks"""
        if Interp.REFLIB is None: self.walklib()
        saved = [set(m) for m in MARKS]
        for m in MARKS: m.clear()
        try: return (self.walks if walk else self.explore_)(fr, fc, budget, Umax, maxpaths, walk, deadline)
        finally:
            for m, o in zip(MARKS, saved): m.clear(); m.update(o)
    def walks(self, fr, fc, budget, Umax, maxpaths, walk, deadline):
        rnd = random.Random(walk); t0 = time.time(); tot = 0; inl = set(); notes = collections.Counter()
        while time.time() - t0 < budget and (deadline is None or time.time() < deadline.value) and tot < maxpaths:
            U = rnd.choice((Umax, Umax + 1, Umax + 1)) if walk > 1 else rnd.choice((1, Umax))
            res, m, IR, IC = self.one(fr, fc, U, Walk(rnd), [])
            tot += 1; inl |= IR.inl | (IC.inl if IC else set())
            if res == 'differs': return dict(status='differs', what=m, paths=tot, U=U, decisions=describe(IC or IR), inl=len(inl), notes={})
            if res == 'inconclusive': notes[m] += 1
        return dict(status='walked', paths=tot, inl=len(inl), notes=dict(notes))
    def explore_(self, fr, fc, budget, Umax, maxpaths, walk, deadline):
        tot = 0; t0 = time.time(); notes = collections.Counter(); complete = None
        inl = set(); best = 0
        for U in range(1, Umax + 3):
            # beyond the bound asked for: only while it costs little and nothing was left open
            cap = budget * (.5 if U == 1 else 1)
            if U > Umax:
                if complete != U - 1 or bad(notes) or time.time() - t0 > budget * .08: break
                cap = budget * .3
            prefix = []; restarts = 0; n = 0; good = 0; ext = collections.Counter() if U > Umax else notes
            while prefix is not None:
                ctl = Ctl2(prefix)
                try:
                    res, m, IR, IC = self.one(fr, fc, U, ctl, prefix)
                except Restart:
                    restarts += 1
                    if restarts > 12: ext['unstable decisions'] += 1; break
                    prefix = []; n = 0; continue
                n += 1; tot += 1
                inl |= IR.inl | (IC.inl if IC else set())
                if res == 'differs':
                    return dict(status='differs', what=m, paths=tot, U=U, decisions=describe(IC or IR), inl=len(inl), notes=dict(notes))
                if res == 'inconclusive': ext[m] += 1
                elif res == 'bound': ext['left the bound'] += 1
                elif res == 'equal': good += 1
                prefix = ctl.next()
                if n >= maxpaths or time.time() - t0 > cap or deadline is not None and time.time() > deadline.value:
                    ext['budget at U=%d' % U] += 1; break
            else:
                if not bad(ext): complete = U
            best += good
            if time.time() - t0 > budget: break
        if best == 0 or bad(notes): return dict(status='inconclusive', why='; '.join('%s x%d' % kv for kv in notes.most_common(4)) or 'no completed path', paths=tot, U=complete, inl=len(inl), good=best)
        return dict(status='equal', how='explored', paths=tot, U=complete, notes=dict(notes), inl=len(inl), good=best)
    def one(self, fr, fc, U, ctl, prefix):
        IR = Interp(self.R); IR.assuming = True; IR.CG = self.cr; IR.U = U; IR.ctl = ctl
        rr = None; IC = None
        try:
            _inv.assume(IR, fr)
            rr = execute(IR, fr)
        except Dead: return 'dead', None, IR, None
        except Give as e: return 'inconclusive', 'reference: ' + str(e), IR, None
        except RecursionError: return 'inconclusive', 'reference: recursion', IR, None
        if rr.kind in ('dead', 'ub'): return 'dead', None, IR, None
        if rr.kind in ('bound', 'diverge'): return 'bound', None, IR, None
        IC = Interp(self.C); IC.CG = self.cc; IC.U = U; IC.ctl = ctl
        IC.S.pc = dict(IR.S.pc); IC.S.rep = dict(IR.S.rep); IC.S.svp = dict(IR.S.svp); IC.S.uid = 1000000; IC.confirmed = True
        try: rc = execute(IC, fc)
        except Give as e: return 'inconclusive', 'candidate: ' + str(e), IR, IC
        except Dead: return 'dead', None, IR, IC
        except RecursionError: return 'inconclusive', 'candidate: recursion', IR, IC
        if rc.kind == 'dead': return 'dead', None, IR, IC
        if rc.kind == 'bound': return 'bound', None, IR, IC
        base = len(ctl.taken); rep0 = dict(IR.S.rep); pc0 = dict(IR.S.pc)
        try: m = self.diff(IR, rr, IC, rc, fr, fc)
        except Dead: return 'dead', None, IR, IC
        except Bound: return 'bound', None, IR, IC
        except Give as e: return 'inconclusive', 'comparison: ' + str(e), IR, IC
        except Inconclusive as e: return 'inconclusive', str(e), IR, IC
        if m is None: return 'equal', None, IR, IC
        # confirm: the reference again, under everything the candidate decided
        if IC.S.rep != rep0 or IC.S.pc != pc0:
            I2 = Interp(self.R); I2.assuming = True; I2.CG = self.cr; I2.U = U; I2.ctl = ctl
            I2.S.pc = dict(IC.S.pc); I2.S.rep = dict(IC.S.rep); I2.S.svp = dict(IC.S.svp)
            try:
                r2 = execute(I2, fr)
                if r2.kind in ('dead', 'bound', 'diverge', 'ub'): return 'dead' if r2.kind in ('ub', 'dead') else 'bound', None, I2, IC
                IC.S.pc = dict(I2.S.pc); IC.S.rep = dict(I2.S.rep)
                I3 = Interp(self.C); I3.CG = self.cc; I3.U = U; I3.ctl = ctl
                I3.S.pc = dict(I2.S.pc); I3.S.rep = dict(I2.S.rep); I3.S.svp = dict(I2.S.svp); I3.S.uid = 1000000; I3.confirmed = True; I3.sized = IC.sized
                r3 = execute(I3, fc)
                if r3.kind in ('dead', 'bound'): return r3.kind, None, I2, I3
                m = self.diff(I2, r2, I3, r3, fr, fc)
                IC = I3; IR = I2; rc = r3; rr = r2
            except Dead: return 'dead', None, IR, IC
            except Bound: return 'bound', None, IR, IC
            except Give as e: return 'inconclusive', 'confirmation: ' + str(e), IR, IC
            except Inconclusive as e: return 'inconclusive', str(e), IR, IC
            if m is None: return 'equal', None, IR, IC
        w = self.validate(IC, m)
        if w is not None: return 'inconclusive', w, IR, IC
        return 'differs', m, IR, IC

    # ------------------------------------------------------------ differences
    def diff(self, IR, rr, IC, rc, fr, fc):
        """None or (what, a, b)"""
        N = IC.norm
        for r in (rr, rc):
            if r.val is not None and isinstance(r.val, T): r.val = N(r.val)
        if IR.S.rep is not IC.S.rep: self.renorm(IR, IC)
        if rr.kind != rc.kind:
            if rr.kind == 'throw' and rc.kind == 'ret' and fr['q'].startswith('dnmx_') and isinstance(rr.val, T) and IC.test(N(mk('isexc', rr.val, 'std::exception')), ((0, 0),)):
                return None         # a foreign exception stopped at the C boundary: no caller in C can rely on it passing
            return ('outcome', describe_res(rr), describe_res(rc))
        if rr.kind == 'throw':
            a, b = rr.val, rc.val
            if isinstance(a, T) or isinstance(b, T):
                d = self.veq(IR, a, IC, b)
                if d: return ('exception', show(d[0]), show(d[1]), d[0], d[1])
            elif a != b: return ('exception class', a, b)
        ta, tb = self.trace(IR), self.trace(IC)
        for i in range(max(len(ta), len(tb))):
            x = ta[i] if i < len(ta) else None; y = tb[i] if i < len(tb) else None
            if x is None or y is None: return ('calls made', ev_text(x), ev_text(y), x, y)
            if x[0] != y[0] or x[1] != y[1]: return ('calls made', ev_text(x), ev_text(y), x, y)
            d = self.veq(IR, x[2], IC, y[2])
            if d: return ('arguments of %s' % x[1], show(d[0]), show(d[1]), d[0], d[1])
        if rr.kind == 'terminate': return None
        if rr.kind == 'ret':
            a, b = rr.val, rc.val
            if (a is None) != (b is None):
                if a in (None, 0) and b in (None, 0): pass
                else: return ('result', str(a), str(b))
            elif a is not None:
                d = self.veq(IR, a, IC, b)
                if d: return ('result', show(d[0]), show(d[1]), d[0], d[1])
        d = self.mem(IR, IC, rr)
        return d or self.lifetime(IR, IC, rr) or self.deleted(IR, IC)
    def deleted(self, IR, IC):
        """objects which were there before the call: each is deleted in both or in none"""
        def of(I):
            out = collections.defaultdict(list)
            for e in I.S.trace:
                if e[0] != 'delete' or not isinstance(e[2][0], T): continue
                p = IC.norm(self.canon(I, e[2][0]))
                if isinstance(p, T) and toloc(p)[0].op in ('param', 'ini'): out[p].append(e[1])
            return out
        a, b = of(IR), of(IC)
        for p in a:
            if p not in b: return ('objects deleted', a[p][0] + ' ' + show(p), 'not deleted', p, p)
        for p in b:
            if p not in a: return ('objects deleted', 'not deleted', b[p][0] + ' ' + show(p), p, p)
            if len(b[p]) > len(a[p]): return ('objects deleted', 'once', '%d times: %s' % (len(b[p]), show(p)), p, p)
        return None
    STABLE = ('std::deque<', 'std::list<', 'std::forward_list<', 'std::set<', 'std::map<', 'std::multi', 'std::unordered_')
    MOVING = ('std::vector<', 'itlib::flat_', 'itlib::small_vector<', 'itlib::pod_vector<')
    def moving(self):
        """members whose elements stay where they are in the confirmed instance, and do not in this one"""
        if self.mov is None:
            t = {(r['q'], f['n']): f['t'] for r in self.R.recs.values() for f in r['fs']}
            self.mov = {}
            for r in self.C.recs.values():
                for f in r['fs']:
                    a = norm_t(t.get((r['q'], f['n']), '')); b = norm_t(f['t'])
                    if a.startswith(self.STABLE) and b.startswith(self.MOVING): self.mov[f['n']] = b.split('<')[0]
        return self.mov
    def inmoving(self, path):
        for i, a in enumerate(path[:-1]):
            if a[0] == '.' and a[1] in self.mov and path[i + 1] == ('.', '#c'): return a[1]
        return None
    def lifetime(self, IR, IC, rr):
        """addresses which the state keeps: of elements which may move, of characters of strings which are gone"""
        mov = self.moving()
        local = lambda l: isinstance(l[0], T) and l[0].op == 'loc'
        sus = {}
        for s, ls in IC.sdl.items():
            if s.op == 'str': continue
            w = [l for l in ls if not local(l)]
            k = [l for l in IR.sdl.get(s, ()) if not local(l)]
            if not k: continue
            if not w: sus[s] = 'a string which is gone'
            elif mov and all(self.inmoving(l[1]) for l in w) and not any(self.inmoving(l[1]) for l in k if False): sus[s] = 'a string in %s, which moves its elements' % self.inmoving(w[0][1])
        if not sus and not mov: return None
        def scan(v):
            ts = set(); terms_in(v, ts)
            for t in ts:
                if t.op == 'sdata' and t.args[0] in sus: return 'the characters of ' + sus[t.args[0]]
                if t.op == 'ptr' and len(t.args) > 1 and isinstance(t.args[1], tuple):
                    f = self.inmoving(t.args[1])
                    if f: return 'an element of %s (%s), which moves its elements' % (f, mov[f])
            return None
        rs = self.roots(IC, rr)
        for (r, p), v in sorted(((k, v) for k, v in IC.S.cells.items() if k[0] in rs), key=lambda x: dig(x[0][1])):
            if not isinstance(v, (T, tuple)) or self.skip_path(p) or p and p[-1] == ('.', '#s'): continue
            w = scan(v)
            if w: return ('kept address: %s' % show(locptr((r, p))), 'of what stays in its place', w)
        if rr.kind == 'ret' and isinstance(rr.val, (T, tuple)) and sus:
            w = scan(rr.val)
            if w and 'gone' in w: return ('returned address', 'of what outlives the call', w)
        return None
    def renorm(self, IR, IC):
        S = IR.S; S.pc = IC.S.pc; 
        if S.rep == IC.S.rep: S.rep = IC.S.rep; return
        S.rep = IC.S.rep
        for name in ('cells', 'ver'):
            d = getattr(S, name); n = {}
            for k, x in d.items():
                k2 = IR.nloc(k)
                if k2 in n and n[k2] != x and name == 'cells': raise Inconclusive('late aliasing') if False else None or _Alias()
                n[k2] = IR.norm(x) if isinstance(x, (T, tuple)) else x
            setattr(S, name, n)
        S.trace = [tuple(IR.norm(y) if isinstance(y, (T, tuple)) else y for y in e) for e in S.trace]
    DROP = ('new', 'delete', 'newarr', 'static-init', 'ub')
    def trace(self, I):
        return [(e[0], e[1], e[2]) for e in I.S.trace if e[0] not in self.DROP]
    def veq(self, IR, a, IC, b):
        """None when equal, else the differing pair"""
        if a is b: return None
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                d = self.veq(IR, x, IC, y)
                if d: return d
            return None
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return None if a == b else (a, b)
        for _ in range(4):
            x = self.canon(IR, a); y = self.canon(IC, b)
            x = self.tidy(IC, IC.norm(x)); y = self.tidy(IC, IC.norm(y))
            if x is y or x == y: return None
            x = self.modfix(IC, x); y = self.modfix(IC, y)
            if x is y or x == y: return None
            p = self.fndiff(IR, a, IC, b)
            if p is None: break
            # two function values: an obligation of their own
            if not self.prove(p): break
        if isinstance(x, (int, T)) and isinstance(y, (int, T)):
            try:
                if IC.test(sub(x, y), ((0, 0),)) is True: return None
            except TypeError: pass
        return (x, y)
    def tidy(self, I, v):
        """snapshots without the parts which hold what was there before"""
        def f(t):
            if t.op != 'snap': return None
            out = subst(t.args[0], f); ver = subst(t.args[1], f)
            return mk('snap', tuple(I.tidy_out(out, ver)), ver)
        return subst(v, f) if isinstance(v, (T, tuple)) else v
    def modfix(self, I, v):
        """(a - 1) mod n where it is known whether n divides a"""
        if not isinstance(v, (T, tuple)): return v
        def f(t):
            if t.op != 'op%': return None
            if I.test(t, ((0, 0),)) is True: return 0
            a = t.args[0]
            if not (isinstance(a, int) or a.op == 'lin' and a.args[0] == -1): return None
            m = I.norm(mod(add(a, 1), t.args[1]))
            if m == 0 or I.test(m, ((0, 0),)) is True: return add(subst(t.args[1], f), -1)
            if isinstance(m, T) and I.test(m, ((0, 0),)) is False: return add(m, -1)
            return None
        return subst(v, f)
    def fndiff(self, IR, a, IC, b):
        if isinstance(a, T) and isinstance(b, T):
            if a.op == 'fn' and b.op == 'fn':
                if self.fnkey(self.R, *a.args[:2]) == self.fnkey(self.C, *b.args[:2]): return None
                return (a, b)
            if a.op == b.op and len(a.args) == len(b.args):
                for x, y in zip(a.args, b.args):
                    p = self.fndiff(IR, x, IC, y)
                    if p: return p
        elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                p = self.fndiff(IR, x, IC, y)
                if p: return p
        return None
    def prove(self, p):
        f = self.R.fns.get(p[0].args[0]); g = self.C.fns.get(p[1].args[0])
        if not f or not g or not ('body' in f and 'body' in g): return False
        if len(f['ps']) != len(g['ps']): return False
        r = self.compare(f, g, budget=8.0)
        if r['status'] == 'inconclusive': raise Inconclusive('function value: ' + r.get('why', ''))
        return r['status'] == 'equal'

    # ------------------------------------------------------------ memory
    def skip_path(self, path):
        for a in path:
            if a[0] == '.' and (a[1] in self.newf or a[1] in self.gonef): return True
        return False
    def roots(self, I, rr):
        """live roots visible after the call"""
        S = I.S
        out = set()
        for d in (S.cells, S.ver):
            for (r, p) in d:
                if r in out: continue
                if isinstance(r, T) and r.op in ('loc', 'str'): continue
                if isinstance(r, T) and r.op == 'glob' and r.args[0] == 'exc': continue
                if isinstance(r, T) and r.op == 'abs': continue
                if rr.kind != 'ret' and isinstance(r, T) and r.op == 'ret': continue
                out.add(r)
        return out
    def reach_new(self, I, roots, rr):
        """live allocations reachable from the visible state"""
        S = I.S
        seen = set(); st = []
        def scan(v):
            if isinstance(v, (T, tuple)):
                s = set(); terms_in(v, s)
                for t in s:
                    if t.op == 'new' and t not in seen: seen.add(t); st.append(t)
        by = {}
        for d in (S.cells,):
            for (r, p), v in d.items(): by.setdefault(r, []).append(v)
        for r in roots:
            if not (isinstance(r, T) and r.op == 'new'):
                for v in by.get(r, ()): scan(v)
        if rr.kind == 'ret': scan(rr.val)
        for e in S.trace:
            if e[0] not in ('delete', 'new'): scan(e[2])
        while st:
            for v in by.get(st.pop(), ()): scan(v)
        return seen
    def mem(self, IR, IC, rr):
        ra, rb = self.roots(IR, rr), self.roots(IC, rr)
        na, nb = self.reach_new(IR, ra, rr), self.reach_new(IC, rb, rr)
        live = lambda I: [e for e in I.S.trace if e[0] == 'new'] 
        la = collections.Counter(t.args[0] for t in news(IR) if t not in IR.S.dead and t not in na)
        lb = collections.Counter(t.args[0] for t in news(IC) if t not in IC.S.dead and t not in nb)
        if la != lb:
            x = lb - la
            if x: return ('leaked allocation', dict(la), dict(lb))
            x = la - lb
            if x: raise Inconclusive('allocation differences')
        keys = []
        for I, rs, nn in ((IR, ra, na), (IC, rb, nb)):
            for r in rs:
                if isinstance(r, T) and r.op == 'new' and r not in nn: continue
                if isinstance(r, T) and r in I.S.dead: continue
                keys.append(r)
        roots = sorted(set(keys), key=dig)
        for r in roots:
            for name in ('cells',):
                ks = set(k for k in IR.S.cells if k[0] is r) | set(k for k in IC.S.cells if k[0] is r)
                for k in sorted(ks, key=lambda k: dig(k[1])):
                    if self.skip_path(k[1]): continue
                    if not self.live(IR, IC, k): continue
                    d = self.cmp_at(IR, IC, k)
                    if d: return d
            va = {k: t for k, t in IR.S.ver.items() if k[0] is r}; vb = {k: t for k, t in IC.S.ver.items() if k[0] is r}
            if set(va) != set(vb) or any(self.veq(IR, va[k], IC, vb[k]) for k in va):
                raise Inconclusive('havocked memory differs')
        return None
    def live(self, IR, IC, k):
        """does the location belong to the live part of the containers it lies in?"""
        r, p = k
        # dead payload of an empty optional
        for i, a in enumerate(p):
            if a == ('.', '#v'):
                h = self.q(IR, (r, p[:i] + (('.', '#has'),)))
                if h == 0 and self.q(IC, (r, p[:i] + (('.', '#has'),))) == 0: return False
            if a == ('.', '#c') and i + 1 < len(p) and p[i + 1][0] == '[':
                n = self.q(IC, (r, p[:i] + (('.', '#n'),)))
                if isinstance(n, int) and isinstance(p[i + 1][1], int) and not (0 <= p[i + 1][1] < n): return False
        return True
    def q(self, I, loc):
        try: v = I.load_(loc)
        except (Dead, Bound, Give): return None
        return I.norm(v) if isinstance(v, T) else v
    def loadq(self, I, loc):
        """load without adding decisions"""
        t = len(I.ctl.taken)
        v = I.load_(loc)
        return I.norm(v) if isinstance(v, T) else v
    def cmp_at(self, IR, IC, k):
        a = self.loadq(IR, k); b = self.loadq(IC, k)
        d = self.veq(IR, a, IC, b)
        if d: return ('final value of ' + show(locptr(k)), show(d[0]), show(d[1]), d[0], d[1])
        return None
    # ------------------------------------------------------------ validation
    def validate(self, I, m):
        """None when the difference is confirmed, else the reason for not believing it"""
        vals = m[3:5] if len(m) >= 5 else ()
        for v in vals:
            if isinstance(v, (T, tuple)) and tainted(v): return 'unknown value in a difference'
        for L in I.S.pc:
            if L.taint: return 'unknown value in a decision'
            if (self.newf or self.gonef) and contains(L, lambda t: t.op in ('ini', 'ptr') and self.skip_path(t.args[1])): return 'decision depends on a field the confirmed instance does not have'
        if self.newf or self.gonef:
            for L in I.S.rep:
                if contains(L, lambda t: t.op in ('ini', 'ptr') and self.skip_path(t.args[1])): return 'decision depends on a field the confirmed instance does not have'
        for v in vals:
            if (self.newf or self.gonef) and contains(v, lambda t: t.op in ('ini', 'ptr') and self.skip_path(t.args[1])): return 'value of a field the confirmed instance does not have'
        a, b = (vals[0], vals[1]) if len(vals) == 2 and not isinstance(vals[0], tuple) else (None, None)
        if m[0] in ('calls made', 'objects deleted'): a = b = None
        if not witness(I, a, b): return 'no witness for the difference: %s: %s / %s' % (m[0], str(m[1])[:120], str(m[2])[:120])
        return None

def bad(notes): return [k for k in notes if k != 'left the bound' and not k.startswith('budget')]
class _Alias(Inconclusive): pass

def tainted(v):
    if isinstance(v, T): return v.taint
    return any(tainted(x) for x in v) if isinstance(v, tuple) else False
def news(I):
    out = set()
    cnt = collections.Counter()
    for e in I.S.trace:
        if e[0] == 'new':
            out.add(mk('new', e[1], cnt[e[1]])); cnt[e[1]] += 1
    return out
def fields_of(P):
    s = set()
    for r in P.recs.values():
        for f in r['fs']: s.add(f['n'])
    return s
def describe_res(r):
    if r.kind == 'ret': return 'returns'
    if r.kind == 'throw': return 'throws ' + (r.val if isinstance(r.val, str) else show(r.val))
    if r.kind == 'terminate': return 'terminates (%s)' % r.why
    if r.kind == 'ub': return 'undefined behaviour: ' + r.why
    if r.kind == 'diverge': return 'does not terminate'
    return r.kind
def ev_text(e):
    if e is None: return 'no further call'
    return '%s %s%s' % (e[0], e[1], show(e[2]))
def describe(I, n=14):
    out = []
    for k, v in list(I.S.rep.items())[:n]: out.append('%s = %s' % (show(k), show(v)))
    for L, D in list(I.S.pc.items())[:n]:
        out.append('%s in %s' % (show(L), ' or '.join('[%s,%s]' % d for d in D)))
    return [x[:200] for x in out]

# ------------------------------------------------------------------ witness valuations
INTERP = {'lin', 'mul', 'op/', 'op%', 'op&', 'op|', 'op^', 'op<<', 'op>>', 'op~', 'tr', 'c'}
def leaves(x, out, memo):
    if isinstance(x, T):
        if x in memo: return
        memo.add(x)
        if x.op in INTERP:
            for a in x.args: leaves(a, out, memo)
        else: out.add(x)
    elif isinstance(x, tuple):
        for y in x: leaves(y, out, memo)

def ev(x, val):
    if isinstance(x, (int, float)): return x
    if isinstance(x, tuple): return tuple(ev(y, val) for y in x)
    if not isinstance(x, T): return x
    if x in val: return val[x]
    o = x.op
    if o == 'lin':
        r = x.args[0]
        for t, k in x.args[1]: r += k * ev(t, val)
        return r
    if o == 'mul': return ev(x.args[0], val) * ev(x.args[1], val)
    if o == 'c': return ev(x.args[0], val)
    if o in INTERP:
        a = ev(x.args[0], val) if o != 'tr' else ev(x.args[1], val)
        if o == 'tr':
            b, g = Interp.NARROW.get(x.args[0], (64, 0)); a &= (1 << b) - 1
            return a - (1 << b) if g and a >> (b - 1) else a
        b = ev(x.args[1], val)
        try:
            if o == 'op/': return a // b
            if o == 'op%': return a % b
            if o == 'op&': return a & b
            if o == 'op|': return a | b
            if o == 'op^': return a ^ b
            if o == 'op<<': return a << (b & 63)
            if o == 'op>>': return a >> (b & 63)
            if o == 'op~': return ~a
        except (ZeroDivisionError, ValueError): raise ZeroDivisionError
    return zlib.crc32(x.h.encode()) + 1000

def witness(I, a, b, tries=600):
    """is there a valuation of the leaf terms that satisfies the path condition and makes a and b different?"""
    pc = I.S.pc
    ls = set(); memo = set()
    for L in pc: leaves(L, ls, memo)
    if a is not None: leaves(a, ls, memo); leaves(b, ls, memo)
    # applications of one unknown function: equal arguments, equal value
    heads = collections.defaultdict(list); rep = I.S.rep; todo = list(ls) + [t for t in rep if t.op not in INTERP and t not in ls]
    while todo:
        t = todo.pop()
        if not any(isinstance(y, (T, tuple)) for y in t.args): continue
        heads[(t.op, len(t.args), tuple(y for y in t.args if isinstance(y, (str, int))))].append(t)
    congs = [g for g in heads.values() if len(g) > 1]
    if len(congs) and sum(len(g) for g in congs) < 60:
        for g in congs:
            for t in g:
                for y in t.args:
                    if isinstance(y, (T, tuple)): leaves(y, ls, memo)
    else: congs = []
    def congruent(val):
        for g in congs:
            seen = {}
            for t in g:
                k = tuple(ev(y, val) if isinstance(y, (T, tuple)) else y for y in t.args)
                x = val[t] if t in val else ev(rep[t], val) if t in rep else None
                if x is not None and seen.setdefault(k, x) != x: return False
        return True
    ls = sorted(ls, key=dig)
    wide = any(contains(x, lambda t: t.op == 'tr') for x in (a, b) if isinstance(x, (T, tuple)))
    rnd = random.Random(1)
    cons = [(L, D) for L, D in pc.items() if L.op in INTERP]
    lin_cons = [(L, D) for L, D in cons if L.op == 'lin']
    def inD(v, D): return any(l <= v <= h for l, h in D)
    def pick(t):
        D = pc.get(t) or default_dom(t)
        l, h = rnd.choice(D)
        isp = is_ptrlike(t)
        if isp:
            if l <= 0 <= h and (h == 0 or rnd.random() < .2): return 0
            c = 1000003 * (1 + zlib.crc32(t.h.encode()) % 4000)
            return c if l <= c <= h else (l if l != -INF else h)
        c = []
        if l != -INF: c += [l, l + 1, l + rnd.randint(0, 9)]
        if h != INF: c += [h, h - 1]
        if l <= 0 <= h: c += [0]
        if wide: c += [127, 128, 255, 256, 65535, 65536, 65537 + rnd.randint(0, 300)]
        c += [rnd.randint(-3, 12), rnd.choice([1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 100])]
        c = [x for x in c if l <= x <= h]
        return rnd.choice(c) if c else l
    for _ in range(tries):
        val = {t: pick(t) for t in ls}
        # repair violated linear constraints
        ok = True
        for _rnd in range(12):
            ok = True
            for L, D in lin_cons:
                v = ev(L, val)
                if inD(v, D): continue
                ok = False
                ms = [(t, k) for t, k in L.args[1] if t in val and abs(k) == 1]
                if not ms: break
                t, k = rnd.choice(ms)
                l, h = rnd.choice(D)
                tgt = l if l != -INF else h
                if l != -INF and (h == INF or h > l): tgt = l + rnd.randint(0, 3 if h == INF else min(3, h - l))
                val[t] += (tgt - v) * k
            if ok: break
        if not ok: continue
        try:
            if not all(inD(ev(L, val), D) for L, D in cons): continue
            if not all(inD(val[t], pc[t]) for t in ls if t in pc): continue
            if not all(inD(val[t], default_dom(t)) for t in ls): continue
            if not congruent(val): continue
            if a is None: return True
            if ev(a, val) != ev(b, val): return True
        except (ZeroDivisionError, TypeError): continue
    return False
