"""Abstract machine state: cells, array contents, path condition, events."""
from terms import *

class Give(Exception):
    """analysis gives up on this function (result: inconclusive)"""

class CxxThrow(Exception):
    def __init__(self, cls, val=None, user=None): self.cls = cls; self.val = val; self.user = user
class Ret(Exception):
    def __init__(self, val): self.val = val
class Brk(Exception): pass
class Cont(Exception): pass
class Terminate(Exception):
    def __init__(self, why): self.why = why
class Dead(Exception):
    """path is infeasible"""

class Obj:
    """class-typed value: the object at a location"""
    __slots__ = ('loc', 'cls', 'tmp')
    def __init__(self, loc, cls=None, tmp=False): self.loc = loc; self.cls = cls; self.tmp = tmp
    def __repr__(self): return 'Obj(%s)' % show(locptr(self.loc))

class Clo:
    __slots__ = ('node', 'caps', 'this')
    def __init__(self, node, caps, this): self.node = node; self.caps = caps; self.this = this

class Bound(Exception):
    """the path leaves the explored bound"""
class UB(Exception):
    """undefined behaviour certain on this path (null dereference, call of a null function)"""
    def __init__(self, why): self.why = why
class Diverge(Exception):
    """a loop ran for HARD iterations"""

class St:
    """cells / arrs / ver: memory; pc: path condition; rep: solved equalities (leaf term -> value)"""
    __slots__ = ('cells', 'arrs', 'ver', 'pc', 'trace', 'cls', 'cnt', 'uid', 'dead', 'rep', 'locks', 'sym', 'svp')
    def __init__(self):
        self.sym = {}; self.svp = {}; self.cells = {}; self.ver = {}; self.pc = {}; self.rep = {}
        self.trace = []; self.cls = {}; self.cnt = {}; self.uid = 0; self.dead = set(); self.locks = {}

class Ctl:
    """decision controller of one exploration level"""
    def __init__(self, prefix): self.prefix = prefix; self.taken = []; self.opts = []
    def choose(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(c); self.opts.append(n)
        return c

def first_idx(path):
    for i, a in enumerate(path):
        if a[0] == '[': return i
    return -1

PINF = {'#n', 'm_size', 'num_features', 'num_mixins', 'm_updated_upto', 'm_allocated_upto'}
PAIRF = ('begin', 'end', 'top_bid_back', 'm_begin', 'm_end', '_begin', '_end', 'b', 'e')

def leafish(t): return isinstance(t, T) and t.op not in ('lin', 'ptr', 'mul') and not t.op.startswith('op')

class Mem:
    """memory operations mixed into the interpreter"""
    U = 2
    # --- path condition
    def dom(self, L):
        d = self.S.pc.get(L)
        return default_dom(L) if d is None else d
    def test(self, d, iv):
        """truth of (d in iv) if decided, else None"""
        r = norm_lit(d, iv)
        if isinstance(r, bool): return r
        L, s = r
        D = self.dom(L)
        if not iv_and(D, s): return False
        if not iv_and(D, iv_not(s)): return True
        if L.op == 'lin' and len(L.args[1]) == 2:
            q = self.infer(L)
            if q is not None:
                D = iv_and(D, q)
                if not iv_and(D, s): return False
                if not iv_and(D, iv_not(s)): return True
        elif L.op == 'lin':
            lo = hi = 0
            for t, k in L.args[1]:
                q = self.dom(t)
                if not q: return False
                l, h = q[0][0], q[-1][1]
                if k < 0: l, h = h, l
                lo += l * k if l not in (INF, -INF) else -INF
                hi += h * k if h not in (INF, -INF) else INF
            D = iv_and(D, ((lo, hi),))
            if not iv_and(D, s): return False
            if not iv_and(D, iv_not(s)): return True
        return None
    def infer(self, L):
        """difference bounds: L = k1*t1 + k2*t2 from facts on t1, t2 and differences with a third term"""
        (t1, k1), (t2, k2) = L.args[1]
        S = self.S
        lo, hi = -INF, INF
        def bnd(t, k):
            D = self.dom(t)
            if not D: return (-INF, INF)
            l, h = D[0][0], D[-1][1]
            return (l * k, h * k) if k > 0 else (h * k, l * k)
        b1, b2 = bnd(t1, k1), bnd(t2, k2)
        lo = max(lo, b1[0] + b2[0]); hi = min(hi, b1[1] + b2[1])
        if abs(k1) == 1 and abs(k2) == 1 and k1 == -k2:
            p, n = (t1, t2) if k1 == 1 else (t2, t1)
            edges = {}
            for M, D in S.pc.items():
                if M.op == 'lin' and len(M.args[1]) == 2 and D:
                    (a, ka), (b, kb) = M.args[1]
                    if ka == 1 and kb == -1: x, y = a, b
                    elif ka == -1 and kb == 1: x, y = b, a
                    else: continue
                    l, h = D[0][0], D[-1][1]
                    if h != INF: edges.setdefault(x, []).append((y, h))
                    if l != -INF: edges.setdefault(y, []).append((x, -l))
            def ub(x, y):
                best = INF
                for z, c in edges.get(x, ()):
                    if z is y: best = min(best, c)
                    for w, c2 in edges.get(z, ()):
                        if w is y: best = min(best, c + c2)
                        for w3, c3 in edges.get(w, ()):
                            if w3 is y: best = min(best, c + c2 + c3)
                return best
            u = ub(p, n); l = -ub(n, p)
            lo = max(lo, l); hi = min(hi, u)
        if lo == -INF and hi == INF: return None
        return ((lo, hi),)
    def decide(self, d, iv):
        d = self.norm(d)
        t = self.test(d, iv)
        if t is not None: return t
        L, s = norm_lit(d, iv)
        if L.op == 'lin':
            q = self.pairpin(L)
            if q: return self.decide(d, iv)
        if L.op == 'throws' and s == ((1, 1),) and '_hist_' in (self.topq or ''):   # what succeeds comes first
            if self.ctl.choose(2, (L, ((0, 0),))) == 0: self.constrain(L, ((0, 0),)); return False
            self.constrain(L, s); return True
        c = self.ctl.choose(2, (L, s))
        if c == 0: self.constrain(L, s); return True
        self.constrain(L, iv_not(s)); return False
    def constrain(self, L, s):
        n = iv_and(self.dom(L), s)
        if not n: raise Dead()
        self.S.pc[L] = n
        if len(n) == 1 and n[0][0] == n[0][1]: self.solve(L, n[0][0])
    def assume(self, d, iv):
        """add as path condition; infeasible -> Dead"""
        d = self.norm(d)
        t = self.test(d, iv)
        if t is True: return
        if t is False: raise Dead()
        L, s = norm_lit(d, iv)
        self.constrain(L, s)
    def pairpin(self, L):
        """difference of two pointers into the same range (fields of one object): enumerate it"""
        if len(L.args[1]) != 2: return False
        (a, ka), (b, kb) = L.args[1]
        if ka + kb != 0 or abs(ka) != 1: return False
        def sib(t):
            if t.op == 'ini' and t.args[1] and t.args[1][-1][0] == '.' and t.args[1][-1][1] in PAIRF: return (t.args[0], t.args[1][:-1])
            return None
        x, y = sib(a), sib(b)
        if x is None or x != y: return False
        rank = lambda t: (0 if 'begin' in t.args[1][-1][1] else 2 if 'end' in t.args[1][-1][1] else 1, t.h)
        if rank(a) > rank(b): a, b = b, a
        # b = a + k
        self.pin_set(sub(b, a), range(0, self.U + 1))
        return True
    def pin_set(self, d, vals):
        vals = [v for v in vals if self.test(d, ((v, v),)) is not False]
        if not vals: raise Dead() if not isinstance(d, T) else Bound()
        i = self.ctl.choose(len(vals), (d, tuple(vals))) if len(vals) > 1 else 0
        self.assume(d, ((vals[i], vals[i]),))
        return vals[i]
    def pin(self, v):
        """enumerate the value of a size"""
        v = self.norm(v)
        if not isinstance(v, T): return v
        c, m = lin(v)
        for t in sorted(m, key=lambda t: t.h):
            if t.op == 'ptr' or is_ptrlike(t): return v
            self.pin_set(t, range(0, self.U + 1))
        return self.norm(v)
    def solve(self, L, c):
        """L == c became known: substitute it everywhere"""
        if L.op == 'lin':
            ms = L.args[1]
            cand = [(t, k) for t, k in ms if abs(k) == 1 and t.op in ('ini', 'res', 'out', 'fld', 'sel', 'obj', 'exc')]
            if not cand: return
            # the other side is preferred to be a parameter or an address
            def rank(p): return (p[0].op in ('res', 'out'), len(p[0]._path()) if hasattr(p[0], '_path') else depth(p[0]), p[0].h)
            cand.sort(key=rank, reverse=True)
            for t, k in cand:
                rest = {x: -kk * k for x, kk in ms if x is not t}
                v = unlin(c * k, rest)
                if not contains(v, lambda x: x is t):
                    return self.subst_all(t, v)
            return
        if leafish(L) and L.op not in ('loc', 'new', 'glob', 'fn', 'str', 'param'): self.subst_all(L, c)
    def subst_all(self, t, v):
        S = self.S
        memo = {}
        def f(x): return v if x is t else None
        def sb(x): return subst(x, f, memo)
        if isinstance(v, int) and v == 0 and is_ptrlike(t):
            old = S.rep; S.rep = dict(old); S.rep[t] = 0   # (for a second run under the same assumptions)
            def deref(x): return x.op == 'ini' and x.args[0] is t
            for x in list(S.rep) + list(S.pc): 
                if contains(x, deref): raise UB('null dereference')
            for k, x in list(S.cells.items()) + list(S.ver.items()):
                if k[0] is t or contains(x, deref): raise UB('null dereference')
            for e in S.trace:
                if contains(e[2], deref): raise UB('null dereference')
                if e[1] == 'callback' and e[2][0] is t: raise UB('call of a null function')
        nr = {}; pend = []
        for k, x in S.rep.items():
            if k is t: continue
            x = sb(x); nr[k] = x
            k2 = sb(k)
            if k2 is not k: pend.append((k2, x))
        S.rep = nr
        S.rep[t] = v
        if isinstance(v, T) and (is_ptrlike(t) or is_ptrlike(v)): mark_ptr(t)
        pc = S.pc; S.pc = {}
        for L, D in pc.items():
            if not contains(L, lambda x: x is t):
                S.pc[L] = D if L not in S.pc else iv_and(S.pc[L], D); continue
            nl = sb(L)
            r = norm_lit(nl, D)
            if r is True: continue
            if r is False:
                S.pc = pc; raise Dead()
            L2, D2 = r
            n = iv_and(S.pc.get(L2) or default_dom(L2), D2)
            if not n: raise Dead()
            S.pc[L2] = n
        def sloc(k):
            r, p = k
            r2, p2 = sb(r), sb(p)
            if r2 is r: return (r2, canon_path(p2))
            if isinstance(r2, int): return (mk('abs', r2), canon_path(p2))
            rr, pp = toloc(r2)
            return (rr, canon_path(pp + p2))
        for name in ('cells', 'ver'):
            d = getattr(S, name); n = {}
            for k, x in d.items():
                n[sloc(k)] = sb(x) if isinstance(x, (T, tuple)) else x
            setattr(S, name, n)
        S.trace = [tuple(sb(y) if isinstance(y, (T, tuple)) else y for y in e) for e in S.trace]
        S.cnt = {sb(k): x for k, x in S.cnt.items()}
        S.sym = {(sb(k) if isinstance(sb(k), T) else k): x for k, x in S.sym.items()}
        S.cls = {sb(k) if isinstance(sb(k), T) else k: x for k, x in S.cls.items()}
        for fr in self.frames:
            fr.env = {k: sloc(l) if l is not None else l for k, l in fr.env.items()}
            if fr.this is not None: fr.this = sloc(fr.this)
            if fr.ret is not None: fr.ret = sloc(fr.ret)
        for o in self.subst_hooks: o(sb, sloc)
        if S.svp:
            e = S.svp.pop(t, None)
            S.svp = {k: sb(x) for k, x in ((sb(k), x) for k, x in S.svp.items()) if isinstance(k, T) and leafish(k)}
            if e is not None:
                e = sb(e)
                if v == 0 and isinstance(v, int): self.assume(e, ((0, 0),))
                elif isinstance(v, T) and leafish(v): S.svp.setdefault(v, e)
        for k2, x in pend: self.assume(sub(k2, x), ((0, 0),))
        # facts solved by the substitution
        for L in list(S.pc):
            D = S.pc.get(L)
            if D and len(D) == 1 and D[0][0] == D[0][1] and L not in self.unsolv:
                k = (L, D[0][0])
                if k in S.rep: continue
                if self.solvable(L): self.solve(L, D[0][0])
    unsolv = ()
    subst_hooks = ()
    def solvable(self, L):
        if L.op == 'lin':
            for t, k in L.args[1]:
                if abs(k) == 1 and t.op in ('ini', 'res', 'out', 'fld', 'sel', 'obj', 'exc'):
                    rest = unlin(0, {x: kk for x, kk in L.args[1] if x is not t})
                    if not contains(rest, lambda x: x is t): return True
            return False
        return leafish(L) and L.op not in ('loc', 'new', 'glob', 'fn', 'str', 'param')
    def norm(self, v):
        rep = self.S.rep
        if not rep or not isinstance(v, (T, tuple)): return v
        if self._nc[0] is not rep: self._nc = (rep, {})
        return subst(v, rep.get, self._nc[1])
    _nc = (None, None)
    def nloc(self, loc):
        if not self.S.rep: return loc
        r, p = loc
        r2 = self.norm(r); p2 = self.norm(p)
        if r2 is r: return (r2, canon_path(p2) if p2 is not p else p2)
        if isinstance(r2, int): return (mk('abs', r2), canon_path(p2))
        rr, pp = toloc(r2)
        return (rr, canon_path(pp + p2))
    def truth(self, v):
        if isinstance(v, int): return v != 0
        if isinstance(v, T):
            v = self.norm(v)
            if isinstance(v, int): return v != 0
            if v.op in ('loc', 'new', 'fn', 'glob', 'str', 'clos', 'rc'): return True
            if v.op == 'ptr':
                r, p = v.args
                if any(a[0] == '.' for a in p) or is_nonnull(r): return True
            if v in NONNULL: return True
            return not self.decide(v, ((0, 0),))
        raise Give('truth of ' + repr(v))

    # --- fresh roots
    def fresh(self, cls=None, tag='loc'):
        self.S.uid += 1
        r = mk('loc', self.S.uid, 0)
        if cls: self.S.cls[r] = cls
        return r

    # --- loads and stores: a flat map of locations; indices of one array are pairwise decided
    def base_ini(self, root, path):
        ver = self.S.ver
        if ver:
            for i in range(len(path), -1, -1):
                t = ver.get((root, path[:i]))
                if t is not None:
                    return self.mkini(t, path[i:])
        return self.mkini(root, path)
    def mkini(self, root, path):
        if isinstance(root, T):
            if root.op == 'rep': return root.args[0]
            if root.op == 'undefarr': return mk('undef')
            if root.op == 'fn' and not path: return root     # a function through a reference
            if root.op == 'sub': return mk('ini', root.args[0], canon_path(root.args[1] + path))
        return mk('ini', root, canon_path(path))
    def load(self, loc, t=None):
        if self.S.rep: loc = self.nloc(loc)
        v = self.load_(loc)
        if self.S.rep and isinstance(v, T): v = self.norm(v)
        if isinstance(v, T) and loc[1] and loc[1][-1][1] in PINF and leafish(v): return self.pin(v)
        if isinstance(v, T) and t:
            if t.endswith('*') or t.endswith('*const') or t.endswith(')') : mark_ptr(v)
            elif t.startswith('unsigned') or t.startswith('const unsigned') or t in ('bool', 'const bool', 'char16_t'): mark_uns(v)
            if t in ('bool', 'const bool') and v.op != 'lin': BOOLT.add(v)
        return v
    def resolve(self, loc):
        """identify the indices of the path with those already in use (deciding equality where open)"""
        root, path = loc
        S = self.S
        path = canon_path(path)
        has = first_idx(path) >= 0
        symk = S.sym.get(root)
        if not has and not symk: return (root, path)
        symi = any(a[0] == '[' and isinstance(a[1], T) for a in path)
        if not symi and not symk: return (root, path)
        i = 0
        while i <= len(path):
            c = path[i] if i < len(path) else None
            isidx = c is not None and c[0] == '['
            idx = c[1] if isidx else 0
            pre = path[:i]
            others = []
            for d in (S.cells, S.ver):
                for (r, p) in d:
                    if r is root and len(p) > i and p[:i] == pre and p[i][0] == '[':
                        if p[i][1] not in others and p[i][1] != idx: others.append(p[i][1])
            if isidx and isinstance(idx, T):
                if not (pre and pre[-1] == ('.', '#c')):
                    for d in (S.cells, S.ver):
                        if any(r is root and p[:i] == pre and (len(p) > i and p[i][0] != '[') for (r, p) in d) and 0 not in others: others.append(0); break
            others = [o for o in others if isinstance(o, T) or isinstance(idx, T)]
            if others and (isidx or any(isinstance(o, T) for o in others)):
                others.sort(key=dig)
                for o in others:
                    if self.eq0(sub(idx, o)):
                        if o == 0 and not (pre and pre[-1] == ('.', '#c')): path = pre + path[i + 1:] if isidx else path
                        elif isidx: path = pre + (('[', o),) + path[i + 1:]
                        else: path = pre + (('[', o),) + path[i:]
                        root, path = self.nloc((root, path)); path = canon_path(path)
                        break
                else:
                    if self.S.rep: root, path = self.nloc((root, path)); path = canon_path(path)
            i += 1
        return (root, path)
    def notnull(self, loc):
        r = loc[0]
        if isinstance(r, T) and r.op == 'abs' and r.args[0] == 0: raise UB('null dereference')
    def load_(self, loc):
        self.notnull(loc)
        root, path = self.resolve(loc)
        self.notnull((root, path))
        S = self.S
        if (root, path) in S.cells: return S.cells[(root, path)]
        for j in range(len(path) - 1, -1, -1):
            if path[j][0] == '[': continue
            k = (root, path[:j])
            if k in S.cells:
                return self.proj(S.cells[k], path[j:])
        if isinstance(root, T) and root.op == 'loc':
            if not any((root, path[:j]) in S.ver for j in range(len(path) + 1)): return mk('undef')
        if isinstance(root, T) and root.op == 'rc' and isinstance(root.args[0], T) and not S.ver.get((root, ())):
            # bytes which were set to zero, seen as something else
            i = path[0][1] if path and path[0][0] == '[' else 0
            if isinstance(i, int) and isinstance(root.args[1], int):
                l = toloc(padd(root.args[0], i * root.args[1]))
                if l and S.cells.get((l[0], canon_path(l[1]))) == 0: return 0
        return self.base_ini(root, path)
    def proj(self, v, path):
        for a in path:
            if isinstance(v, int) and v == 0 and a[0] == '.': continue   # a part of zeroed memory
            if isinstance(v, T) and v.op == 'sval':
                for f, x in v.args[1]:
                    if f == a[1]: v = x; break
                else: v = mk('fld', v, a[1])
            elif a[0] == '.': v = mk('fld', v if isinstance(v, T) else mk('c', v), a[1])
            else: v = mk('sel', v if isinstance(v, T) else mk('c', v), a[1], ())
        return v
    def eq0(self, d):
        return self.decide(d, ((0, 0),))
    def store(self, loc, v):
        if self.S.rep: loc = self.nloc(loc)
        if isinstance(v, Obj): return self.relocate(v, loc)
        if isinstance(v, Clo): return self.store_clo(loc, v)
        S = self.S
        if isinstance(v, T) and v.op == 'sval':
            for f, x in v.args[1]: self.store((loc[0], loc[1] + (('.', f),)), x)
            return
        self.notnull(loc)
        root, path = self.resolve(loc)
        self.notnull((root, path))
        S = self.S
        self.drop_sub(root, path)
        S.cells[(root, path)] = v
        if any(a[0] == '[' and isinstance(a[1], T) for a in path): S.sym[root] = True
    def drop_sub(self, root, path, arr=False):
        """forget what is known below a location (not about later elements of an array that starts there)"""
        S = self.S; n = len(path)
        for d in (S.cells, S.ver):
            for k in [k for k in d if k[0] is root and len(k[1]) > n and k[1][:n] == path and (arr or k[1][n][0] == '.')]: del d[k]
        S.ver.pop((root, path), None)
    def store_clo(self, loc, v):
        self.S.uid += 1
        t = mk('clos', v.node['fn']['u'] if 'fn' in v.node else 'g%d' % v.node['l'], self.S.uid)
        self.CLOS[t] = v
        self.store(loc, t)
    def relocate(self, o, loc):
        """structural move of the object at o.loc to loc"""
        if o.loc == loc: return
        self.copy_obj(o.loc, loc, o.cls, True)
    def sub_keys(self, root, path, arr=False):
        n = len(path)
        return [k for k in self.S.cells if k[0] is root and k[1][:n] == path and (len(k[1]) == n or arr or k[1][n][0] == '.')]
    def sub_vers(self, root, path, arr=False):
        n = len(path)
        return [k for k in self.S.ver if k[0] is root and k[1][:n] == path and (len(k[1]) == n or arr or k[1][n][0] == '.')]
    def base_of(self, root, path):
        """what unwritten parts of the location hold: term to be used as a version of a copy, or None"""
        S = self.S
        for j in range(len(path), -1, -1):
            k = (root, path[:j])
            if k in S.cells and j < len(path):
                return self.proj(S.cells[k], path[j:])
            if k in S.ver:
                t = S.ver[k]
                if j == len(path): return t
                if t.op in ('rep', 'undefarr'): return t
                if t.op == 'sub': return mk('sub', t.args[0], canon_path(t.args[1] + path[j:]))
                return mk('sub', t, canon_path(path[j:]))
        return None
    def havoc(self, loc, tag):
        root, path = self.resolve(self.nloc(loc))
        self.drop_sub(root, path, True)
        self.S.cells.pop((root, path), None)
        self.S.ver[(root, path)] = tag
        if any(a[0] == '[' and isinstance(a[1], T) for a in path): self.S.sym[root] = True
    # canonical snapshot of an object at a location (for values handed to opaque code)
    def snap(self, loc, depth=3, arr=False):
        root, path = loc
        path = canon_path(path)
        n = len(path)
        out = []
        for k in self.sub_keys(root, path, arr): out.append((k[1][n:], self.cval(self.S.cells[k], depth - 1)))
        out.sort(key=dig)
        ver = []
        for k in self.sub_vers(root, path, arr): ver.append((k[1][n:], self.cval(self.S.ver[k], depth - 1)))
        if not any(p == () for p, _ in ver):
            b = self.base_of(root, path)
            if b is not None: ver.append(((), self.cval(b, depth - 1)))
        ver.sort(key=dig)
        if ver and out: out = self.tidy_out(out, ver)
        if not ver and len(out) == 1 and out[0][0] == (): return out[0][1] if isinstance(out[0][1], T) else mk('c', out[0][1])
        return mk('snap', tuple(out), tuple(ver))
    def tidy_out(self, out, ver):
        """parts of a snapshot which do not hold what was there before"""
        keep = []
        for p, x in out:
            b = None
            for n in range(len(p), -1, -1):
                b = next((y for q, y in ver if q == p[:n]), None)
                if b is not None: break
            if isinstance(b, T):
                o = self.norm(self.mkini(b, tuple(p[n:]))) if p[n:] else b
                if o is x or (not isinstance(o, T) and not isinstance(x, T) and o == x): continue
            keep.append((p, x))
        return keep
    def cpath(self, p): return tuple((a[0], a[1]) for a in p)
    def canon_root(self, root):
        return root
    def clo_val(self, c, depth):
        if c is None: return unk('closure')
        h = self.CG.node(c.node) if self.CG else 0
        caps = []
        for x in c.node['caps']:
            l = c.caps.get(x.get('d'))
            if l is not None: caps.append(self.cval(locptr(l), depth - 1) if x.get('ref') else self.snap(l, depth - 1))
        return mk('closure', h, tuple(caps))
    def cval(self, v, depth=3):
        """value with references to local objects replaced by their contents"""
        if isinstance(v, (int, str, float)): return v
        if isinstance(v, Obj):
            return self.cval(locptr(v.loc), depth)
        if isinstance(v, Clo): return self.clo_val(v, depth)
        if isinstance(v, T):
            def f(t):
                if t.op == 'loc':
                    if depth <= 0: return mk('localobj')
                    return mk('&', self.snap((t, ()), depth - 1))
                if t.op == 'clos':
                    c = self.CLOS.get(t)
                    return self.clo_val(c, depth)
                if t.op == 'ptr' and isinstance(t.args[0], T) and t.args[0].op == 'loc':
                    if depth <= 0: return mk('localobj')
                    return mk('&', self.snap(t.args, depth - 1), self.cpath(t.args[1][-1:]) if t.args[1] and t.args[1][-1][0] == '[' else ())
                return None
            return subst(v, f)
        return v

def _resnap(out, ver):
    return mk('snap', tuple(sorted(out, key=dig)), tuple(sorted(ver, key=dig)))
HOOKS['snap'] = _resnap
def _res(name, args, n):
    if name == 'memcmp' and len(args) == 3:
        p, q, l = args
        if p is q or p == q or l == 0: return 0
        if dig(p) > dig(q): return scale(mk('res', name, (q, p, l), n), -1)
    return mk('res', name, args, n)
HOOKS['res'] = _res
def _keyeq(a, b):
    if a is b or a == b: return 1
    x, y = sorted((a, b), key=dig)
    return mk('keyeq', x, y)
HOOKS['keyeq'] = _keyeq
def _sym(op):
    def f(a, b):
        if isinstance(a, int) and isinstance(b, int): return a & b if op == 'op&' else a | b if op == 'op|' else a ^ b
        return mk(op, *sorted((a, b), key=dig))
    return f
for _o in ('op&', 'op|', 'op^'): HOOKS[_o] = _sym(_o)
def _fcmp(op, a, b):
    if isinstance(a, int) and isinstance(b, int): return int({'<': a < b, '<=': a <= b, '==': a == b}[op])
    if op == '==': a, b = sorted((a, b), key=dig)
    return mk('fcmp', op, a, b)
HOOKS['fcmp'] = _fcmp
NONNULL = set()
from terms import BOOLT
MARKS += [NONNULL, BOOLT]
def is_nonnull(t):
    return isinstance(t, T) and (t.op in ('loc', 'new', 'glob', 'str', 'fn', 'clos') or t in NONNULL)
