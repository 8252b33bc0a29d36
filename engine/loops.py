"""Loops: iterated while their condition is decided by the pinned sizes; undetermined conditions are followed at most U+1 times."""
from terms import *
from state import *

HARD = 300

class Loops:
    def loop_stmt(self, s):
        k = s['k']
        fr = self.frames[-1]; sc = []; fr.scopes.append(sc); nsc = len(fr.scopes)
        try:
            if k == 'for':
                if s.get('init'): self.stmt(s['init'])
                self.iterate(lambda: self.loopcond(s), lambda: self.stmt(s['b']), lambda: self.loopinc(s))
            elif k == 'while':
                self.iterate(lambda: self.loopcond(s), lambda: self.stmt(s['b']), None)
            elif k == 'do':
                st = [True]
                def c():
                    if st[0]: st[0] = False; return True
                    return self.fullcond(s['c'])
                self.iterate(c, lambda: self.stmt(s['b']), None)
            else: self.range_for(s)
        except (CxxThrow, Ret, Brk, Cont) as ex:
            del fr.scopes[nsc:]; fr.scopes.pop(); self.end_scope(sc, ex); raise
        except BaseException:
            del fr.scopes[nsc:]; fr.scopes.pop(); raise
        fr.scopes.pop(); self.end_scope(sc, None)
    def loopcond(self, s):
        if s.get('cv'): self.decl(s['cv'])
        if not s.get('c'): return True
        return self.fullcond(s['c'])
    def loopinc(self, s):
        if s.get('inc'):
            self.temps.append([])
            try: self.discard(s['inc'])
            except CxxThrow: self.end_temps(); raise
            except BaseException: self.temps.pop(); raise
            self.end_temps()
    def iterate(self, cond, body, inc):
        n = und = bodyd = 0
        while True:
            a = len(self.ctl.taken)
            if not cond(): return
            if len(self.ctl.taken) != a:
                und += 1
                if und > self.U + 1: raise Bound()
            n += 1
            if n > HARD: raise Diverge()
            a = len(self.ctl.taken)
            try: body()
            except Brk: return
            except Cont: pass
            if len(self.ctl.taken) != a:
                bodyd += 1
                if bodyd > 8: raise Bound()
            if inc: inc()
    def range_for(self, s):
        fr = self.frames[-1]
        if s.get('init'): self.stmt(s['init'])
        r = s['r']
        # the range is evaluated once, temporaries live until the end of the loop
        self.temps.append([])
        try: o = self.lv(r)
        except BaseException: self.temps.pop(); raise
        fr.scopes[-1].extend(self.temps.pop())
        t = norm(self.expr_t(r))
        it, end = self.range_bounds(o, t)
        st = [it]
        slot = self.fresh()
        self.put_any((slot, ()), it); 
        eslot = self.fresh(); self.put_any((eslot, ()), end)
        def cond(): return not self.it_eq(self.get_any((slot, ()), it), self.get_any((eslot, ()), end))
        def body():
            loc = self.it_deref(self.get_any((slot, ()), it))
            v = s['v']
            self.bind_loopvar(v, loc)
            fr2 = self.frames[-1]; sc = []; fr2.scopes.append(sc); nn = len(fr2.scopes)
            try: self.stmt(s['b'])
            except (CxxThrow, Ret, Brk, Cont) as ex:
                del fr2.scopes[nn:]; fr2.scopes.pop(); self.end_scope(self.lvdtor(v) + sc, ex); raise
            except BaseException:
                del fr2.scopes[nn:]; fr2.scopes.pop(); raise
            fr2.scopes.pop(); self.end_scope(self.lvdtor(v) + sc, None)
        def inc(): self.it_inc_loc((slot, ()), it)
        self.iterate(cond, body, inc)
    def lvdtor(self, v):
        if v.get('hasdtor') and not v.get('ref'): return [(self.frames[-1].env[v['d']], v.get('cls') or v['t'])]
        return []
    def bind_loopvar(self, v, loc):
        fr = self.frames[-1]
        if v.get('ref'): base = loc
        else:
            r = self.fresh(); base = (r, ())
            t = v.get('cls') or v['t']
            if self.is_class(t): self.copy_class(loc, base, t)
            else: self.store(base, self.load(loc, v['t']))
        fr.env[v['d']] = base
        if v.get('binds') is not None: self.bind_names(v, base)
    def put_any(self, loc, v):
        if isinstance(v, Obj): self.copy_obj(v.loc, loc, v.cls)
        else: self.store(loc, v)
    def get_any(self, loc, like):
        if isinstance(like, Obj): return Obj(loc, like.cls)
        return self.load(loc)
    def range_bounds(self, o, t):
        k = self.kind(t)
        if k == 'array' or t.endswith(']'):
            n = int(t[t.rfind('[') + 1:-1]) if t[t.rfind('[') + 1:-1].isdigit() else None
            if n is None: raise Give('array extent ' + t)
            p = locptr(o); mark_ptr(p)
            return p, padd(p, n)
        if k == 'std':
            return self.std_range(o, t)
        r = self.rec(t)
        if r:
            return self.method(o, r, 'begin'), self.method(o, r, 'end')
        raise Give('range of type ' + t)
    def method(self, loc, r, name, nargs=0, args=()):
        for m in r['ms']:
            if m['n'] == name:
                g = self.P.fns.get(m['u'])
                if g and ('body' in g) and len(g['ps']) == nargs:
                    return self.finish_call(g, list(args), loc, None, None)
        for b in r['bs']:
            br = self.rec(b['t'])
            if br:
                try: return self.method(loc, br, name, nargs, args)
                except Give: pass
        raise Give('no method %s in %s' % (name, r['q']))
    # --- iterators: pointers ('rev' for reverse), or objects of a class of the program
    def it_eq(self, a, b):
        if isinstance(a, Obj):
            r = self.rec(a.cls)
            if r: return bool(self.truthv(self.method(a.loc, r, 'operator==', 1, [b.loc])))
            raise Give('iterator ' + str(a.cls))
        return self.cmp('==', a, b)
    def it_deref(self, a):
        if isinstance(a, Obj):
            r = self.rec(a.cls)
            if not r: raise Give('iterator ' + str(a.cls))
            v = self.method(a.loc, r, 'operator*')
            return v.loc if isinstance(v, Obj) else toloc(v)
        if isinstance(a, T) and a.op == 'rev': return toloc(padd(a.args[0], -1))
        return toloc(a)
    def it_inc_loc(self, loc, like):
        if isinstance(like, Obj): self.method(loc, self.rec(like.cls), 'operator++')
        else: self.store(loc, padd(self.load(loc), 1))
    def it_next(self, a):
        if isinstance(a, Obj):
            r = self.fresh(a.cls); self.copy_obj(a.loc, (r, ()), a.cls)
            self.method((r, ()), self.rec(a.cls), 'operator++')
            return Obj((r, ()), a.cls)
        return padd(a, 1)
    def it_range(self, a, b):
        """the iterators of [a, b)"""
        out = []
        n = und = 0
        while True:
            t = len(self.ctl.taken)
            if self.it_eq(a, b): return out
            if len(self.ctl.taken) != t:
                und += 1
                if und > self.U + 1: raise Bound()
            n += 1
            if n > HARD: raise Diverge()
            out.append(a); a = self.it_next(a)

def norm(t):
    from interp import norm_t
    return norm_t(t)
