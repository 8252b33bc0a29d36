"""Abstract semantics of the standard library entities used by the repository."""
import re
from terms import *
DBG=0
from state import *
import state as _state

def nt(t):
    from interp import norm_t
    return norm_t(t)
def sf(t):
    from interp import std_fields
    return std_fields(t)
def targs(t):
    from interp import split_targs
    return split_targs(t)

SEQ = ('std::vector<', 'std::deque<', 'std::array<', 'std::list<', 'std::__cxx11::list<')
ASSOC = ('std::set<', 'std::map<', 'std::unordered_map<', 'std::unordered_set<', 'std::multiset<', 'std::multimap<')

def strlit(s): return mk('str', s)

class Std:
    # ------------------------------------------------------------ helpers
    def aval(self, e):
        """value of an argument expression: Obj / Clo / term, by its location when it is an lvalue of class type"""
        t = self.expr_t(e)
        if t and self.is_class(t) and nt(t).endswith(']') is False:
            if self.kind(nt(t)) == 'lambda' or e['k'] == 'lambda':
                return self.eval(e)
            return Obj(self.lv(e), nt(t))
        if t and nt(t).endswith(']'): return self.eval(e) if e['k'] == 'str' else Obj(self.lv(e), nt(t))
        return self.eval(e)
    def isrv(self, fn, i):
        pt = fn.get('pt') or []
        return i < len(pt) and pt[i].endswith('&&')
    def isrvarg(self, e):
        """is the argument expression an xvalue / prvalue (to be moved from)?"""
        while e['k'] in ('full', 'tmp'): e = e['a']
        if e['k'] == 'call' and 'fn' in e:
            if e['fn']['q'] == 'std::move': return True
            if e['fn']['q'] == 'std::forward':
                ta = e['fn'].get('ta') or []
                return bool(ta) and not ta[0].endswith('&')
            return not e.get('lv')
        return not e.get('lv')
    def copy_class(self, src, dst, t, move=False):
        t = nt(t)
        k = self.kind(t)
        if k == 'rec':
            r = self.rec(t)
            sm = 'movector' if move else 'copyctor'
            for m in r['ms']:
                if m.get('sm') == sm and m.get('user'):
                    g = self.P.fns.get(m['u'])
                    if g and 'body' in g and not self.is_opaque(g):
                        self.inline(g, [src], dst, None, None); return
            if move and not any(m.get('sm') == 'movector' and not m.get('deleted') for m in r['ms']):
                return self.copy_class(src, dst, t, False) if any(m.get('sm') == 'copyctor' and m.get('user') for m in r['ms']) else self.copy_obj(src, dst, t)
        self.copy_obj(src, dst, t)
        if move: self.moved_deep(src, t)
    def moved_deep(self, loc, t):
        t = nt(t)
        k = self.kind(t)
        if k == 'std':
            if t.startswith(('std::pair<', 'std::tuple<')):
                for i, a in enumerate(targs(t)):
                    if self.is_class(a): self.moved_deep(self.fld(loc, ('first', 'second')[i] if t.startswith('std::pair<') else '#%d' % i), a)
                return
            self.moved_from(loc, t)
        elif k == 'rec':
            r = self.rec(t)
            for b in r['bs']: self.moved_deep(loc, b['t'])
            for f in r['fs']:
                if self.is_class(f['t']): self.moved_deep(self.fld(loc, f['n']), f['t'])
    def cn(self, loc):
        """element count of a container (enumerated)"""
        n = self.getf(loc, '#n', 'unsigned long')
        if isinstance(n, T):
            n = self.norm(n)
            if isinstance(n, T): k = len(self.ctl.taken); n = self.pin(n); self.sized |= len(self.ctl.taken) > k
        if not isinstance(n, int): raise Give('size of container')
        return n
    def el(self, loc, i):
        c = self.fld(loc, '#c')
        if i == 0 and False: return c
        return (c[0], c[1] + (('[', i),))
    def begin(self, loc):
        p = locptr(self.fld(loc, '#c')); mark_ptr(p); return p
    def iend(self, loc):
        return padd(self.begin(loc), self.cn(loc))
    def idx_of(self, loc, it):
        d = sub(it, self.begin(loc))
        d = self.norm(d)
        if isinstance(d, int): return d
        if isinstance(d, T) and self.test(d, NONNEG) is None: pass
        n = self.cn(loc)
        return self.pin_set(d, range(0, n + 1))
    def et(self, t):
        return self.elem_t(t)
    def move_el(self, et, src, dst):
        if et and self.is_class(et): self.copy_obj(src, dst, et)
        else: self.store(dst, self.load(src, et))
    def insert_gap(self, loc, t, i, k=1):
        n = self.cn(loc); et = self.et(t)
        for j in range(n - 1, i - 1, -1): self.move_el(et, self.el(loc, j), self.el(loc, j + k))
        for j in range(i, i + k): self.forget(self.el(loc, j))
        self.setf(loc, '#n', n + k)
    def forget(self, l): pass
    def erase_at(self, loc, t, i, k=1, destroy=True):
        n = self.cn(loc); et = self.et(t)
        if i < 0 or i + k > n: self.overrun('erase out of range')
        if destroy and et and self.is_class(et):
            # the erased elements end last (move-assigned over): destruction effects are those of the erased objects
            for j in range(i, i + k): self.destroy(self.el(loc, j), et)
        for j in range(i + k, n): self.move_el(et, self.el(loc, j), self.el(loc, j - k))
        self.setf(loc, '#n', n - k)
    def build(self, loc, t, vals, args=None, moved=False):
        """construct an element of type t at loc from argument values"""
        t = nt(t)
        if not vals:
            if self.is_class(t): self.value_init(loc, t)
            else: self.store(loc, 0)
            return
        if not self.is_class(t):
            v = vals[0]
            if isinstance(v, Obj): v = self.load(v.loc)
            self.store(loc, v); return
        if len(vals) == 1 and isinstance(vals[0], Obj) and (nt(vals[0].cls or '') == t or self.kind(t) == 'rec' and nt(vals[0].cls or '') == t):
            mv = moved if args is None else self.isrvarg(args[0])
            self.copy_class(vals[0].loc, loc, t, mv); return
        if self.kind(t) == 'std': return self.std_construct(t, loc, vals, [moved if args is None else self.isrvarg(a) for a in (args or vals)] )
        r = self.rec(t)
        if r:
            cands = []
            for m in r['ms']:
                if m['n'] == r['q'].split('::')[-1].split('<')[0] and m.get('sm') in (None, 'defctor') and not m.get('deleted'):
                    g = self.P.fns.get(m['u'])
                    if g and 'inits' in g and len(g['ps']) >= len(vals) and all('def' in p for p in g['ps'][len(vals):]): cands.append(g)
            if len(cands) > 1:
                sc = [(sum(self.param_fit(v, a, p) for v, a, p in zip(vals, args or [None] * len(vals), g['ps'])), -len(g['ps'])) if all(self.param_fit(v, a, p) is not None for v, a, p in zip(vals, args or [None] * len(vals), g['ps'])) else None for g in cands]
                best = max((x for x in sc if x is not None), default=None)
                cands = [g for g, x in zip(cands, sc) if x is not None and x == best]
            if len(cands) == 1 and not self.is_opaque(cands[0]):
                g = cands[0]
                al = [self.bindv(v, p) for v, p in zip(vals, g['ps'])]
                for p in g['ps'][len(vals):]: al.append(self.default_arg(p))
                self.inline(g, al, loc, None, None); return
        raise Give('construction of %s from %d values' % (t, len(vals)))
    def param_fit(self, v, a, p):
        """how well an argument fits a parameter: 2 same type, 1 convertible by kind, None not at all"""
        b = lambda t: nt(t).rstrip('&').strip()
        pt = b(p['t'])
        if isinstance(v, Obj):
            if self.is_class(pt): return 2 if b(v.cls or '') == pt else (0 if not v.cls else None)
            return None
        if self.is_class(pt): return None
        at = b(a.get('t') or '') if isinstance(a, dict) else ''
        if at and at == pt: return 2
        if at and at.endswith('*') != pt.endswith('*'): return None
        return 1
    def default_arg(self, p):
        if p.get('ref'): return self.lv(p['def'])
        r = self.fresh()
        if self.is_class(p['t']): self.eval_into(p['def'], (r, ()))
        else: self.store((r, ()), self.eval(p['def']))
        return (r, ())
    def bindv(self, v, p):
        if isinstance(v, Obj):
            if p.get('ref'): return v.loc
            r = self.fresh(); self.copy_class(v.loc, (r, ()), p['t']); return (r, ())
        r = self.fresh(); self.store((r, ()), v); return (r, ())
    def value_init(self, loc, t):
        k = self.kind(t)
        if k == 'rec':
            r = self.rec(t)
            for m in r['ms']:
                if m.get('sm') == 'defctor':
                    g = self.P.fns.get(m['u'])
                    if g and 'inits' in g and (m.get('user') or True):
                        if not m.get('user'): self.zero_init(loc, t)
                        self.inline(g, [], loc, None, None); return
            self.zero_init(loc, t)
            self.default_members(loc, r)
        else: self.zero_init(loc, t)
    def default_members(self, loc, r):
        for f in r['fs']:
            if f.get('init'):
                try: self.eval_into(f['init'], self.fld(loc, f['n']))
                except Give: pass

    # ------------------------------------------------------------ default construction, destruction
    def std_default(self, loc, t):
        t = nt(t)
        if t.startswith(SEQ) or t.startswith(ASSOC):
            if t.startswith('std::array<'):
                return
            self.setf(loc, '#n', 0)
            self.havoc(self.fld(loc, '#c'), mk('undefarr'))
            self.setf(loc, '#r', mk('defres'))
        elif t.startswith('std::unique_ptr<'): self.setf(loc, '#p', 0)
        elif t.startswith(('std::shared_ptr<', 'std::__shared_ptr<', 'std::weak_ptr<')): self.setf(loc, '#p', 0); self.setf(loc, '#own', 0)
        elif t.startswith('std::optional<'): self.setf(loc, '#has', 0)
        elif t.startswith('std::basic_string<'): self.setf(loc, '#s', strlit('')); self.setf(loc, '#r', mk('defres'))
        elif t.startswith('std::basic_string_view<'): self.setf(loc, '#p', 0); self.setf(loc, '#l', 0)
        elif t.startswith('std::function<'): self.setf(loc, '#f', 0)
        elif t.startswith('std::initializer_list<'): self.setf(loc, '#p', 0); self.setf(loc, '#n', 0)
        elif t.startswith(('std::pair<', 'std::tuple<')):
            for i, a in enumerate(targs(t)):
                f = self.fld(loc, ('first', 'second')[i] if t.startswith('std::pair<') else '#%d' % i)
                if self.is_class(a): self.value_init(f, a)
                else: self.store(f, 0)
        elif 'allocator<' in t: self.setf(loc, '#r', mk('defres'))
        elif t.startswith(('std::unique_lock<', 'std::shared_lock<')): self.setf(loc, '#m', 0); self.setf(loc, '#owns', 0)
        elif t.startswith('std::atomic'): self.store(loc, 0)
    def std_dtor(self, loc, t):
        t = nt(t)
        if t.startswith('std::unique_ptr<'):
            p = self.getf(loc, '#p', 'void *')
            if self.truth(p): self.uptr_delete(loc, t, p)
            return
        if t.startswith(('std::vector<', 'std::deque<')) or t.startswith(ASSOC):
            et = self.et(t)
            if et and self.needs_dtor(et):
                for i in range(self.cn(loc)): self.destroy(self.el(loc, i), et)
            return
        if t.startswith('std::optional<'):
            et = self.et(t)
            if self.needs_dtor(et) and self.truth(self.getf(loc, '#has')): self.destroy(self.fld(loc, '#v'), et)
            return
        if t.startswith('std::pair<'):
            a = targs(t)
            for f, x in (('second', a[1]), ('first', a[0])):
                if self.needs_dtor(x): self.destroy(self.fld(loc, f), x)
            return
        if t.startswith(('std::unique_lock<', 'std::shared_lock<', 'std::lock_guard<', 'std::scoped_lock<')):
            if self.truth(self.getf(loc, '#owns', 'bool')): self.unlock(self.getf(loc, '#m'), t)
    def needs_dtor(self, t):
        t = nt(t or '')
        k = self.kind(t)
        if k == 'std':
            if t.startswith(('std::vector<', 'std::deque<', 'std::optional<')) or t.startswith(ASSOC): return self.needs_dtor(self.et(t))
            if t.startswith('std::pair<'): return any(self.needs_dtor(x) for x in targs(t))
            return t.startswith(('std::unique_ptr<', 'std::unique_lock<', 'std::shared_lock<'))
        if k == 'rec': return not self.rec(t).get('trivdtor')
        return False
    def uptr_delete(self, loc, t, p):
        a = targs(t)
        et = a[0]
        if len(a) > 1 and not a[1].startswith('std::default_delete'):
            r = self.rec(a[1])
            if r is None: raise Give('deleter ' + a[1])
            ps = self.fresh(); self.store((ps, ()), p)
            self.method_call(self.fld(loc, '#d'), r, 'operator()', [(ps, ())])
            return
        l = toloc(p)
        if self.is_class(et): self.destroy(l, et)
        self.S.trace.append(('delete', nt(et), (self.cval(p),)))
        self.kill(l)
    def method_call(self, loc, r, name, args):
        for m in r['ms']:
            if m['n'] == name:
                g = self.P.fns.get(m['u'])
                if g and 'body' in g and len(g['ps']) == len(args): return self.finish_call(g, args, loc, None, None)
        raise Give('no %s in %s' % (name, r['q']))
    # ------------------------------------------------------------ locks
    def lock(self, m, mode):
        S = self.S
        n = S.locks.get(m, 0)
        S.locks[m] = n + 1
        if n and not self.inhist():
            # the data guarded by the mutex may have been changed by others between two critical sections
            r, p = toloc(m)
            if p and p[-1][0] == '.' and p[-1][1] == 'm_mutex':
                self.havoc((r, p[:-1] + (('.', 'm_data'),)), mk('relock', m, n))
    def unlock(self, m, t): pass

    # ------------------------------------------------------------ construction
    def std_ctor(self, e, t, loc):
        t = nt(t)
        fn = e['fn']; args = e.get('args', [])
        from interp import ITER_PAT
        if ITER_PAT.match(t) or loc is None:
            if t.startswith('std::atomic'):
                v = self.eval(args[0]) if args else 0
                if loc is None: return v
                self.store(loc, v); return
            if t.startswith('std::reverse_iterator') and args and e.get('cm') is None and not nt(self.expr_t(args[0]) or '').startswith('std::reverse_iterator'):
                v = mk('rev', self.eval(args[0]))
            else: v = self.eval(args[0]) if args else 0
            if loc is None: return v
            self.store(loc, v); return
        if t.startswith(('std::mutex', 'std::shared_mutex', 'std::basic_ostringstream', 'std::integer_sequence', 'std::nullopt_t', 'std::bad_alloc', 'std::allocator<', 'std::exception', 'std::less', 'std::runtime_error', 'std::logic_error', 'std::in_place', 'std::basic_ostream')):
            if t.startswith('std::allocator<'): self.setf(loc, '#r', mk('stdalloc'))
            return
        vals = [self.aval(a) for a in args]
        mv = [self.isrvarg(a) for a in args]
        self.std_construct(t, loc, vals, mv, e)
    def sval_of(self, v, t=None):
        """string value of an argument: std::string / string_view object, or character pointer"""
        if isinstance(v, Obj):
            c = nt(v.cls or '')
            if c.startswith('std::basic_string<'): return self.getf(v.loc, '#s')
            if c.startswith('std::basic_string_view<'): return self.strof(self.getf(v.loc, '#p', 'char *'), self.getf(v.loc, '#l', 'unsigned long'))
            if c.endswith(']'): v = locptr(v.loc)
            else: raise Give('string from ' + c)
        if isinstance(v, T) and v.op == 'str': return v
        return self.strof(v, self.strlen(v))
    def strlen(self, p):
        if isinstance(p, T) and p.op == 'str': return len(p.args[0].encode())
        if isinstance(p, T) and p.op == 'sdata' : return mk_slen(p.args[0])
        return mark_uns(mk('slen', self.cval(p)))
    def strof(self, p, l):
        if isinstance(p, T) and p.op == 'str' and isinstance(l, int): return strlit(p.args[0][:l])
        if isinstance(p, T) and p.op == 'sdata' and l == mk_slen(p.args[0]): return p.args[0]
        return mk('strof', p if isinstance(p, T) else mk('c', p), l)
    def cat(self, a, b):
        out = []
        for x in (a, b):
            for y in (x.args if x.op == 'cat' else (x,)):
                if y.op == 'str':
                    if y.args[0] == '': continue
                    if out and out[-1].op == 'str': out[-1] = strlit(out[-1].args[0] + y.args[0]); continue
                out.append(y)
        if not out: return strlit('')
        return out[0] if len(out) == 1 else mk('cat', *out)
    def sdata(self, s, loc=None):
        if loc is not None: self.sdl.setdefault(s, set()).add(loc)   # whose characters they are
        return s if s.op == 'str' else mark_ptr(mk('sdata', s))
    def std_construct(self, t, loc, vals, mv, e=None):
        t = nt(t)
        v0 = vals[0] if vals else None
        c0 = nt(v0.cls or '') if isinstance(v0, Obj) else None
        same = c0 == t
        if same and len(vals) == 1:
            self.copy_obj(v0.loc, loc, t)
            if mv[0]: self.moved_deep(v0.loc, t)
            elif sf(t) and '#r' in sf(t) and '#c' in sf(t): self.setf(loc, '#r', mk('defres'))
            return
        if t.startswith(('std::vector<', 'std::deque<')) or t.startswith(ASSOC):
            return self.container_ctor(t, loc, vals, mv)
        if t.startswith('std::basic_string<'):
            self.setf(loc, '#r', mk('defres'))
            vs = list(vals)
            if vs and isinstance(vs[-1], Obj) and 'allocator' in (vs[-1].cls or ''):
                self.setf(loc, '#r', self.getf(vs[-1].loc, '#r')); vs.pop()
            if not vs: self.setf(loc, '#s', strlit(''))
            elif len(vs) == 1: self.setf(loc, '#s', self.sval_of(vs[0]))
            elif len(vs) == 2 and not isinstance(vs[1], Obj):
                p = vs[0] if not isinstance(vs[0], Obj) else locptr(vs[0].loc)
                if isinstance(p, T) and is_ptrlike(p) and not (isinstance(vs[1], T) and is_ptrlike(vs[1])): self.setf(loc, '#s', self.strof(p, vs[1]))
                else: self.setf(loc, '#s', self.strof(p, sub(vs[1], p)))
            else: self.setf(loc, '#s', unk('string'))
            return
        if t.startswith('std::basic_string_view<'):
            if not vals: return self.std_default(loc, t)
            if len(vals) == 1:
                if isinstance(v0, Obj) and c0.startswith('std::basic_string'):
                    s = self.getf(v0.loc, '#s') if c0.startswith('std::basic_string<') else None
                    if s is None: return self.copy_obj(v0.loc, loc, t)
                    self.setf(loc, '#p', self.sdata(s, v0.loc)); self.setf(loc, '#l', mk_slen(s)); return
                p = locptr(v0.loc) if isinstance(v0, Obj) else v0
                self.setf(loc, '#p', p); self.setf(loc, '#l', self.strlen(p)); return
            p = locptr(v0.loc) if isinstance(v0, Obj) else v0
            self.setf(loc, '#p', p); self.setf(loc, '#l', vals[1] if not (isinstance(vals[1], T) and is_ptrlike(vals[1])) else sub(vals[1], p)); return
        if t.startswith('std::optional<'):
            if not vals or (isinstance(v0, Obj) and 'nullopt' in (v0.cls or '')) or (isinstance(v0, T) and v0.op == 'glob' and 'nullopt' in v0.args[0]): return self.std_default(loc, t)
            et = self.et(t)
            if isinstance(v0, Obj) and c0.startswith('std::optional<'):
                h = self.getf(v0.loc, '#has', 'bool'); self.setf(loc, '#has', h)
                self.store(self.fld(loc, '#v'), self.load(self.fld(v0.loc, '#v'), et)); return
            self.setf(loc, '#has', 1)
            self.build(self.fld(loc, '#v'), et, vals, None, mv[0]); return
        if t.startswith('std::unique_ptr<'):
            if not vals: return self.std_default(loc, t)
            if isinstance(v0, Obj) and c0.startswith('std::unique_ptr<'):
                self.setf(loc, '#p', self.getf(v0.loc, '#p', 'void *'))
                self.copy_deleter(v0.loc, loc, t)
                self.setf(v0.loc, '#p', 0); return
            self.setf(loc, '#p', v0)
            if len(vals) > 1 and isinstance(vals[1], Obj): self.copy_class(vals[1].loc, self.fld(loc, '#d'), vals[1].cls)
            return
        if t.startswith(('std::shared_ptr<', 'std::__shared_ptr<', 'std::weak_ptr<')):
            if not vals or v0 == 0: return self.std_default(loc, t)
            if isinstance(v0, Obj) and (c0.startswith(('std::shared_ptr<', 'std::__shared_ptr<', 'std::weak_ptr<'))):
                self.setf(loc, '#own', self.getf(v0.loc, '#own', 'void *'))
                self.setf(loc, '#p', vals[1] if len(vals) > 1 else self.getf(v0.loc, '#p', 'void *'))
                if mv[0] and len(vals) == 1 or (mv[0] and len(vals) == 2): self.setf(v0.loc, '#p', 0); self.setf(v0.loc, '#own', 0)
                return
            if isinstance(v0, Obj) and c0.startswith('std::unique_ptr<'):
                p = self.getf(v0.loc, '#p', 'void *'); self.setf(loc, '#p', p); self.setf(loc, '#own', mk('owned', p) if isinstance(p, T) else 0); self.setf(v0.loc, '#p', 0); return
            self.setf(loc, '#p', v0); self.setf(loc, '#own', mk('owned', v0 if isinstance(v0, T) else mk('c', v0))); return
        if t.startswith('std::function<'):
            if not vals or v0 == 0: return self.std_default(loc, t)
            if isinstance(v0, Obj) and c0.startswith('std::function<'): self.setf(loc, '#f', self.getf(v0.loc, '#f')); return
            self.setf(loc, '#f', v0 if not isinstance(v0, Obj) else self.load(v0.loc)); return
        if t.startswith(('std::pair<', 'std::tuple<')):
            a = targs(t)
            names = ('first', 'second') if t.startswith('std::pair<') else ['#%d' % i for i in range(len(a))]
            if len(vals) == 1 and len(a) > 1 and isinstance(v0, Obj) and c0 and c0.startswith(('std::pair<', 'std::tuple<')):
                b = targs(c0); bn = ('first', 'second') if c0.startswith('std::pair<') else names
                for f, g, x, y in zip(names, bn, a, b):
                    self.put(self.fld(loc, f), Obj(self.fld(v0.loc, g), nt(y)) if self.is_class(y) else self.load(self.fld(v0.loc, g), y), x)
                    if mv[0] and self.is_class(y): self.moved_deep(self.fld(v0.loc, g), y)
                return
            if not vals: return self.std_default(loc, t)
            for i, (f, x, v) in enumerate(zip(names, a, vals)):
                if x.endswith('&') or x.endswith('&&'):
                    ae = e['args'][i] if e else None
                    self.setf(loc, f, locptr(v.loc) if isinstance(v, Obj) else locptr(self.lv(ae)) if ae is not None else v)
                elif isinstance(v, Obj): self.build(self.fld(loc, f), x, [v], None, mv[i])
                else: self.build(self.fld(loc, f), x, [v], None, mv[i])
            return
        if 'allocator<' in t:
            if not vals: return self.setf(loc, '#r', mk('defres'))
            if isinstance(v0, Obj): self.setf(loc, '#r', self.getf(v0.loc, '#r')); return
            self.setf(loc, '#r', v0); return
        if t.startswith(('std::unique_lock<', 'std::shared_lock<', 'std::lock_guard<', 'std::scoped_lock<')):
            if not vals: return self.std_default(loc, t)
            if isinstance(v0, Obj) and c0.startswith(('std::unique_lock<', 'std::shared_lock<')):
                self.copy_obj(v0.loc, loc, t); self.setf(v0.loc, '#owns', 0); return
            m = locptr(v0.loc) if isinstance(v0, Obj) else v0
            self.setf(loc, '#m', m); self.setf(loc, '#owns', 1)
            self.lock(m, 'shared' if 'shared_lock' in t else 'excl'); return
        if t.startswith('std::initializer_list<'):
            if not vals: return self.std_default(loc, t)
        if t.startswith('std::reference_wrapper<'):
            self.setf(loc, '#p', locptr(v0.loc) if isinstance(v0, Obj) else v0); return
        if t.startswith(('std::less', 'std::greater', 'std::hash')): return
        self.store(loc, unk('ctor ' + t))
    def copy_deleter(self, src, dst, t):
        a = targs(t)
        if len(a) > 1 and self.rec(a[1]): self.copy_obj(self.fld(src, '#d'), self.fld(dst, '#d'), a[1])
    def container_ctor(self, t, loc, vals, mv):
        self.std_default(loc, t)
        vs = list(vals)
        if vs and isinstance(vs[-1], Obj) and 'allocator<' in nt(vs[-1].cls or '').split('<')[0] + '<':
            self.setf(loc, '#r', self.getf(vs[-1].loc, '#r')); vs.pop(); 
        elif vs and isinstance(vs[-1], T) and is_ptrlike(vs[-1]) and len(vs) == 1 and self.kind(nt('')) and not isinstance(vs[0], Obj):
            self.setf(loc, '#r', vs[-1]); vs.pop()
        if not vs: return
        et = self.et(t)
        v0 = vs[0]
        if len(vs) == 1 and isinstance(v0, Obj):
            c = nt(v0.cls or '')
            if c == t:
                r = self.getf(loc, '#r'); self.copy_obj(v0.loc, loc, t); self.setf(loc, '#r', r)
                if mv and mv[0]: self.moved_from(v0.loc, t)
                return
            if c.startswith('std::initializer_list<'):
                p = self.getf(v0.loc, '#p'); n = self.pin(self.getf(v0.loc, '#n'))
                return self.assign_range(loc, t, padd(p, 0), padd(p, n))
        if len(vs) == 2 and (not isinstance(vs[1], Obj) or self.rec(vs[1].cls)) and not isinstance(v0, int) and (isinstance(v0, Obj) or is_ptrlike(v0) or v0.op == 'rev'):
            return self.assign_range(loc, t, vs[0], vs[1])
        if t.startswith(('std::vector<', 'std::deque<')) and not isinstance(v0, Obj):
            n = self.pin(v0)
            if not isinstance(n, int): raise Give('container size')
            self.resize(loc, t, n, vs[1] if len(vs) > 1 else None); return
        raise Give('container construction ' + t)
    def assign_range(self, loc, t, a, b):
        et = self.et(t)
        its = self.it_range(a, b)
        tmp = []
        for it in its:
            l = self.it_deref(it)
            if et and self.is_class(et):
                r = self.fresh(); self.copy_class(l, (r, ()), et); tmp.append((r, ()))
            else: tmp.append(self.load(l, et))
        if t.startswith(ASSOC):
            for x in tmp: self.assoc_insert(loc, t, x if isinstance(x, tuple) else None, x)
            return
        self.setf(loc, '#n', len(tmp))
        for i, x in enumerate(tmp):
            if et and self.is_class(et): self.copy_obj(x, self.el(loc, i), et)
            else: self.store(self.el(loc, i), x)
    def resize(self, loc, t, n, v=None):
        et = self.et(t)
        o = self.cn(loc)
        if n > 400: raise Give('large container')
        if n < o:
            if et and self.needs_dtor(et):
                for i in range(n, o): self.destroy(self.el(loc, i), et)
        else:
            for i in range(o, n):
                if v is None: self.build(self.el(loc, i), et, [])
                else: self.build(self.el(loc, i), et, [v])
        self.setf(loc, '#n', n)

    # ------------------------------------------------------------ associative containers: positions by an uninterpreted key lookup
    def inhist(self): return '_hist_' in (self.topq or '')
    def keyterm(self, v, t=None):
        if isinstance(v, Obj):
            c = nt(v.cls or '')
            if c.startswith('std::vector<') or c.startswith('std::deque<'):
                n = self.cn(v.loc); et = self.et(c)
                return mk('seq', *[self.elk(self.el(v.loc, i), et) for i in range(n)])
            if c.startswith('itlib::span<'):
                n = self.pin(self.getf(v.loc, 'm_size', 'unsigned long')); p = self.getf(v.loc, 'm_begin', 'void *')
                et = targs(c)[0]
                return mk('seq', *[self.elk(toloc(padd(p, i)), et) for i in range(n)]) if isinstance(n, int) else mk('seqof', p, n)
            if c.startswith('std::unique_ptr<') or c.startswith('std::shared_ptr<'):
                p = self.getf(v.loc, '#p', 'void *')
                if self.inhist() and 'dynamix::type' in targs(c)[0] and isinstance(p, T):   # types are kept by their mixins
                    l = toloc(p); ml = self.fld(l, 'mixins')
                    n = self.getf(ml, 'm_size', 'unsigned long')
                    if isinstance(n, int): return self.keyterm(Obj(ml, 'itlib::span<const dynamix::mixin_info *const>'))
                return mk('uk', self.elkv(p))
            if c.startswith('std::basic_string'): return mk('sk', self.sval_of(v))
            return self.snap(v.loc)
        return self.elkv(v)
    def elkv(self, v):
        v = self.norm(v) if self.inhist() else self.cval(v)
        return v if isinstance(v, T) else mk('c', v)
    def elk(self, loc, et):
        if et and self.is_class(et): return self.keyterm(Obj(loc, nt(et)))
        return self.elkv(self.load(loc, et))
    def keyof(self, loc, t, i):
        et = self.et(t)
        l = self.el(loc, i)
        if t.startswith(('std::map<', 'std::unordered_map<', 'std::multimap<')):
            k = targs(t)[0]
            l = self.fld(l, 'first')
            return Obj(l, nt(k)) if self.is_class(k) else self.load(l, k)
        return Obj(l, nt(et)) if self.is_class(et) else self.load(l, et)
    def mpos(self, loc, t, key):
        """position of the key in the container: -1 .. n-1, decided once per (contents, key)"""
        n = self.cn(loc)
        k = self.keyterm(key)
        ks = []
        for i in range(n):
            ks.append(self.keyterm(self.keyof(loc, t, i)))
        for i, x in enumerate(ks):
            if x is k: return i
        # distinct position atoms per element: equality of keys
        for i, x in enumerate(ks):
            if self.keyeq(x, k): return i
        return -1
    def keyeq(self, a, b):
        a = self.norm(a); b = self.norm(b)
        if a is b: return True
        if a.op == 'seq' and b.op == 'seq' and len(a.args) != len(b.args): return False
        if a.op == 'seq' and b.op == 'seq':
            for x, y in zip(a.args, b.args):
                u = x.args[0] if x.op == 'c' else x; w = y.args[0] if y.op == 'c' else y
                if not self.cmp('==', u, w): return False
            return True
        x, y = sorted((a, b), key=dig)
        return self.decide(mark_uns(mk('keyeq', x, y)), ((1, 1),))
    def assoc_insert(self, loc, t, srcloc, val, keyonly=False):
        pass

    # ------------------------------------------------------------ calls
    def std_call(self, e, fn, into):
        q = fn['q']; n = fn['n']; cls = fn.get('cls') or ''
        args = e.get('args', [])
        if cls:
            c = nt(cls)
            if c.startswith('std::vector<') or c.startswith('std::deque<') or c.startswith('std::array<'): return self.seq_call(e, fn, n, c, args, into)
            if c.startswith(ASSOC): return self.assoc_call(e, fn, n, c, args, into)
            from interp import ITER_PAT
            if c.startswith(('__gnu_cxx::__normal_iterator', 'std::_Rb_tree', 'std::_Deque_iterator', 'std::reverse_iterator', 'std::move_iterator')): return self.iter_call(e, fn, n, args)
            if c.startswith('std::basic_string<'): return self.str_call(e, fn, n, c, args, into)
            if c.startswith('std::basic_string_view<'): return self.sv_call(e, fn, n, c, args, into)
            if c.startswith('std::optional<'): return self.opt_call(e, fn, n, c, args)
            if c.startswith(('std::shared_ptr<', 'std::__shared_ptr', 'std::unique_ptr<', 'std::weak_ptr<')): return self.ptr_call(e, fn, n, c, args)
            if c.startswith('std::function<'): return self.func_call(e, fn, n, c, args)
            if c.startswith('std::initializer_list<'):
                o = self.objloc(e)
                if n == 'begin': return self.getf(o, '#p', 'void *')
                if n == 'size': return self.getf(o, '#n', 'unsigned long')
                if n == 'end': return padd(self.getf(o, '#p', 'void *'), self.pin(self.getf(o, '#n', 'unsigned long')))
            if 'allocator<' in c and c.startswith('std::'):
                o = self.objloc(e)
                if n == 'resource': r = self.getf(o, '#r'); mark_ptr(r) if isinstance(r, T) else 0; _state.NONNULL.add(r); return r
                if n in ('allocate', 'deallocate'):
                    vals = tuple(self.cval(self.eval(a)) for a in args)
                    return self.event('pa.' + n, (self.getf(o, '#r'),) + vals, n == 'allocate', (), rt='void *' if n == 'allocate' else None)
                if n == 'select_on_container_copy_construction':
                    r = self.fresh(); self.setf((r, ()), '#r', mk('defres')); return Obj((r, ()), c, True)
                if n == 'operator=':
                    self.setf(o, '#r', self.getf(self.lv(args[0]), '#r')); return locptr(o)
            if c.startswith('std::pmr::memory_resource'):
                r = self.eval(e['obj']) if e.get('arrow') else locptr(self.lv(e['obj']))
                vals = tuple(self.cval(self.eval(a)) for a in args)
                if n == 'allocate':
                    p = self.event('mr.allocate', (self.cval(r),) + vals, True, (), rt='void *')
                    if isinstance(p, T): _state.NONNULL.add(p)
                    return p
                if n == 'deallocate': self.event('mr.deallocate', (self.cval(r),) + vals, False, ()); return None
                if n == 'is_equal': return self.event('mr.is_equal', (self.cval(r), self.cval(locptr(self.lv(args[0])))), False, (), pure=True, rt='bool')
            if c.startswith(('std::__atomic_base', 'std::atomic')):
                o = self.objloc(e)
                v = self.load(o, 'unsigned long')
                if n in ('fetch_add', 'fetch_sub'):
                    d = self.eval(args[0]); self.store(o, add(v, d if n == 'fetch_add' else scale(d, -1))); return v
                if n in ('load', 'operator __integral_type') or fn.get('conv'): return v
                if n in ('store', 'operator='): self.store(o, self.eval(args[0])); return None
                if n in ('operator++', 'operator--'):
                    w = add(v, 1 if '+' in n else -1); self.store(o, w); return v if args else w
                if n == 'exchange': self.store(o, self.eval(args[0])); return v
            if c.startswith(('std::unique_lock<', 'std::shared_lock<', 'std::lock_guard')):
                o = self.objloc(e)
                if n == 'unlock': self.unlock(self.getf(o, '#m'), c); self.setf(o, '#owns', 0); return None
                if n == 'lock': self.lock(self.getf(o, '#m'), 'x'); self.setf(o, '#owns', 1); return None
                if n == 'operator=':
                    s = self.lv(args[0]); self.copy_obj(s, o, c); self.setf(s, '#owns', 0); return locptr(o)
                if n == 'owns_lock' or fn.get('conv'): return self.getf(o, '#owns', 'bool')
            if c.startswith(('std::mutex', 'std::shared_mutex')):
                if n.startswith('lock'): self.lock(locptr(self.objloc(e)), 'x')
                return None
            if c.startswith('std::type_info'):
                if n == 'name': return self.event('type_info::name', (locptr(self.lv(e['obj'])) if not e.get('arrow') else self.eval(e['obj']),), False, (), pure=True, rt='const char *')
                if n in ('operator==', 'operator!='):
                    r = self.cmp('==', locptr(self.objloc(e)), locptr(self.lv(args[0]))); return int(r == (n == 'operator=='))
            if c.startswith(('std::basic_ostringstream', 'std::basic_ostream', 'std::basic_stringstream')):
                if e.get('lv'): return mk('glob', 'ostream')
                if e.get('t') and self.is_class(e['t']):
                    r = self.fresh(); self.setf((r, ()), '#s', mk('ostr')); return Obj((r, ()), nt(e['t']), True)
                return None
            if c.startswith('std::pair<') and n in ('operator=', 'swap'):
                o = self.objloc(e)
                if n == 'operator=': self.copy_class(self.lv(args[0]), o, c, self.isrvarg(args[0])); return locptr(o)
            if c.startswith('std::tuple<') and n == 'operator=':
                o = self.objloc(e); self.copy_class(self.lv(args[0]), o, c, self.isrvarg(args[0])); return locptr(o)
            if c.startswith(('std::less', 'std::greater', 'std::equal_to')) and n == 'operator()':
                a, b = self.eval(args[0]), self.eval(args[1])
                return int(self.cmp({'l': '<', 'g': '>', 'e': '=='}[c[5]], a, b))
            if c.startswith('std::default_delete') and n == 'operator()':
                p = self.eval(args[0])
                r = self.fresh(); self.setf((r, ()), '#p', p); self.uptr_delete((r, ()), 'std::unique_ptr<%s>' % targs(c)[0], p); return None
            if c.startswith('std::bad_alloc') or c.startswith('std::exception'):
                if n == 'what': return self.event('what', (), False, (), pure=True, rt='const char *')
            return NotImplemented
        return self.free_call(e, fn, q, n, args, into)

    # --- sequences
    def seq_call(self, e, fn, n, c, args, into):
        o = self.objloc(e); et = self.et(c)
        if n in ('begin', 'cbegin'): return self.begin(o)
        if n in ('end', 'cend'): return self.iend(o) if not c.startswith('std::array<') else padd(self.begin(o), int(targs(c)[1]))
        if n in ('rbegin', 'crbegin'): return mk('rev', self.iend(o))
        if n in ('rend', 'crend'): return mk('rev', self.begin(o))
        if n == 'data': return self.begin(o)
        if n == 'size': return self.cn(o) if not c.startswith('std::array<') else int(targs(c)[1])
        if n == 'empty': return int(self.cn(o) == 0)
        if n in ('capacity', 'max_size'): return unk(n)
        if n in ('reserve', 'shrink_to_fit'):
            for a in args: self.eval(a)
            return None
        if n in ('operator[]', 'at'):
            i = self.eval(args[0])
            if not isinstance(i, int): i = self.norm(i)
            if c.startswith('std::array<'): return locptr(self.el(o, i))
            nn = self.cn(o)
            if isinstance(i, int):
                if not 0 <= i < nn:
                    if n == 'at': raise CxxThrow('std::out_of_range')
                    self.overrun('index out of range')
                return locptr(self.el(o, i))
            # symbolic index: enumerate within the container
            if not self.decide(i, ((0, nn - 1),)):
                if n == 'at': raise CxxThrow('std::out_of_range')
                self.overrun('index out of range')
            i = self.pin_set(i, range(0, nn))
            return locptr(self.el(o, i))
        if n == 'front':
            if self.cn(o) == 0: self.overrun('front of empty')
            return locptr(self.el(o, 0))
        if n == 'back':
            nn = self.cn(o)
            if nn == 0: self.overrun('back of empty')
            return locptr(self.el(o, nn - 1))
        if n in ('push_back', 'emplace_back'):
            vals = [self.aval(a) for a in args]
            nn = self.cn(o)
            # the argument may alias an element
            self.build_el(self.el(o, nn), et, vals, args)
            self.setf(o, '#n', nn + 1)
            return locptr(self.el(o, nn)) if n == 'emplace_back' else None
        if n in ('push_front', 'emplace_front'):
            vals = [self.aval(a) for a in args]
            r = self.fresh(); self.build_el((r, ()), et, vals, args)
            self.insert_gap(o, c, 0); self.move_el(et, (r, ()), self.el(o, 0)); return locptr(self.el(o, 0)) if 'emplace' in n else None
        if n == 'pop_back':
            nn = self.cn(o)
            if nn == 0: self.overrun('pop_back of empty')
            if self.needs_dtor(et): self.destroy(self.el(o, nn - 1), et)
            self.setf(o, '#n', nn - 1); return None
        if n == 'clear':
            if self.needs_dtor(et):
                for i in range(self.cn(o)): self.destroy(self.el(o, i), et)
            self.setf(o, '#n', 0); return None
        if n == 'resize':
            k = self.pin(self.eval(args[0]))
            if not isinstance(k, int): raise Give('resize')
            v = self.aval(args[1]) if len(args) > 1 else None
            self.resize(o, c, k, v); return None
        if n == 'assign':
            if len(args) == 2 and not self.is_intarg(args[0]):
                a, b = self.eval(args[0]), self.eval(args[1])
                self.assign_range(o, c, a, b); return None
            if len(args) == 2:
                k = self.pin(self.eval(args[0])); v = self.aval(args[1])
                if not isinstance(k, int): raise Give('assign')
                self.setf(o, '#n', 0); self.resize(o, c, k, v); return None
            v = self.aval(args[0])
            p = self.getf(v.loc, '#p'); k = self.pin(self.getf(v.loc, '#n')); self.assign_range(o, c, p, padd(p, k)); return None
        if n in ('erase',):
            a = self.eval(args[0])
            i = self.idx_of(o, a)
            if len(args) == 1:
                self.erase_at(o, c, i); return padd(self.begin(o), i)
            j = self.idx_of(o, self.eval(args[1]))
            if j > i: self.erase_at(o, c, i, j - i)
            return padd(self.begin(o), i)
        if n in ('insert', 'emplace'):
            i = self.idx_of(o, self.eval(args[0]))
            if n == 'insert' and len(args) == 3:
                its = self.it_range(self.eval(args[1]), self.eval(args[2]))
                vs = []
                for it in its:
                    r = self.fresh(); l = self.it_deref(it)
                    if et and self.is_class(et): self.copy_class(l, (r, ()), et)
                    else: self.store((r, ()), self.load(l, et))
                    vs.append((r, ()))
                self.insert_gap(o, c, i, len(vs))
                for k, l in enumerate(vs): self.move_el(et, l, self.el(o, i + k))
                return padd(self.begin(o), i)
            vals = [self.aval(a) for a in args[1:]]
            r = self.fresh(); self.build_el((r, ()), et, vals, args[1:])
            self.insert_gap(o, c, i); self.move_el(et, (r, ()), self.el(o, i))
            return padd(self.begin(o), i)
        if n == 'operator=':
            v = self.aval(args[0])
            if isinstance(v, Obj) and nt(v.cls or '').startswith('std::initializer_list<'):
                p = self.getf(v.loc, '#p'); k = self.pin(self.getf(v.loc, '#n')); self.assign_range(o, c, p, padd(p, k)); return locptr(o)
            if v.loc != o:
                r = self.getf(o, '#r')
                self.copy_obj(v.loc, o, c); self.setf(o, '#r', r)
                if self.isrv(fn, 0): self.moved_from(v.loc, c)
            return locptr(o)
        if n == 'swap':
            b = self.lv(args[0]); self.swap(o, b, c); return None
        if n == 'get_allocator':
            r = self.fresh(); self.setf((r, ()), '#r', self.getf(o, '#r')); return Obj((r, ()), nt(e['t']), True)
        if n == 'fill' and c.startswith('std::array<'):
            v = self.aval(args[0])
            for i in range(int(targs(c)[1])): self.build(self.el(o, i), et, [v])
            return None
        return NotImplemented
    def is_intarg(self, a):
        t = nt(self.expr_t(a) or '')
        return t in ('int', 'unsigned int', 'unsigned long', 'long', 'unsigned short', '') and a['k'] not in ('call',) or t in ('unsigned long', 'int', 'unsigned int')
    def build_el(self, loc, et, vals, args):
        self.build(loc, et, vals, args)
    def swap(self, a, b, c):
        r = self.fresh()
        self.copy_obj(a, (r, ()), c); self.copy_obj(b, a, c); self.copy_obj((r, ()), b, c)

    # --- associative
    def nodes_moved(self, o, lo, d):
        """iterators and references into a node container stay with their elements"""
        r0, p0 = toloc(self.begin(o)); p0 = p0[:-1] if p0 and p0[-1][0] == '[' else p0
        n = len(p0)
        def mv(r, p):
            if r is not r0 or len(p) <= n or p[:n] != p0 or p[n][0] != '[' or not isinstance(p[n][1], int) or p[n][1] < lo: return None
            return r, p[:n] + (('[', p[n][1] + d),) + p[n + 1:]
        C = self.S.cells
        for k, v in list(C.items()):
            if isinstance(v, T) and v.op in ('ptr', 'rev') and isinstance(k[0], T) and k[0].op == 'loc':
                w = v.args[0] if v.op == 'rev' else v
                if isinstance(w, T) and w.op == 'ptr':
                    x = mv(*w.args)
                    if x: C[k] = mk('rev', mkptr(*x)) if v.op == 'rev' else mkptr(*x)
        for fr in self.frames:
            for k, l in list(fr.env.items()):
                if isinstance(l, tuple) and len(l) == 2 and isinstance(l[1], tuple):
                    x = mv(*l)
                    if x: fr.env[k] = x
    def assoc_call(self, e, fn, n, c, args, into):
        o = self.objloc(e); et = self.et(c)
        ismap = 'map<' in c.split('<')[0] + '<'
        if n in ('begin', 'cbegin'): return self.begin(o)
        if n in ('end', 'cend'): return self.iend(o)
        if n in ('rbegin',): return mk('rev', self.iend(o))
        if n in ('rend',): return mk('rev', self.begin(o))
        if n == 'size': return self.cn(o)
        if n == 'empty': return int(self.cn(o) == 0)
        if n == 'clear':
            if self.needs_dtor(et):
                for i in range(self.cn(o)): self.destroy(self.el(o, i), et)
            self.setf(o, '#n', 0); return None
        if n in ('find', 'count', 'contains', 'at', 'lower_bound', 'upper_bound'):
            if n in ('lower_bound', 'upper_bound'): raise Give('ordered lookup')
            i = self.mpos(o, c, self.aval(args[0]))
            if n == 'find': return padd(self.begin(o), i if i >= 0 else self.cn(o))
            if n == 'at':
                if i < 0: raise CxxThrow('std::out_of_range')
                return locptr(self.fld(self.el(o, i), 'second'))
            return int(i >= 0)
        if n == 'erase':
            if len(args) == 2:
                i = self.idx_of(o, self.eval(args[0])); j = self.idx_of(o, self.eval(args[1]))
                if j > i: self.erase_at(o, c, i, j - i); self.nodes_moved(o, j, i - j)
                return padd(self.begin(o), i)
            pt = (fn.get('pt') or [''])[0]
            if 'iterator' in pt or ITER(nt(self.expr_t(args[0]) or '')):
                i = self.idx_of(o, self.eval(args[0]))
                self.erase_at(o, c, i); self.nodes_moved(o, i + 1, -1); return padd(self.begin(o), i)
            i = self.mpos(o, c, self.aval(args[0]))
            if i >= 0: self.erase_at(o, c, i); self.nodes_moved(o, i + 1, -1)
            return int(i >= 0)
        if n == 'operator[]':
            k = self.aval(args[0])
            i = self.mpos(o, c, k)
            if i < 0:
                i = self.cn(o)
                kt, vt = targs(c)[:2]
                l = self.el(o, i)
                self.build(self.fld(l, 'first'), kt, [k], args)
                self.build(self.fld(l, 'second'), vt, [])
                self.setf(o, '#n', i + 1); self.nodes_moved(o, i, 1)
            return locptr(self.fld(self.el(o, i), 'second'))
        if n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            vals = [self.aval(a) for a in args]
            r = self.fresh()
            if ismap and len(vals) >= 2:
                kt, vt = targs(c)[:2]
                self.build(self.fld((r, ()), 'first'), kt, vals[:1], args[:1]); self.build(self.fld((r, ()), 'second'), vt, vals[1:], args[1:])
            else: self.build_el((r, ()), et, vals, args)
            ko = self.fld((r, ()), 'first') if ismap else (r, ())
            kt = targs(c)[0]
            key = Obj(ko, nt(kt)) if self.is_class(kt) else self.load(ko, kt)
            i = self.mpos(o, c, key)
            new = i < 0
            if new:
                i = self.cn(o); self.move_el(et, (r, ()), self.el(o, i)); self.setf(o, '#n', i + 1); self.nodes_moved(o, i, 1)
            elif n == 'insert_or_assign':
                self.move_el(targs(c)[1], self.fld((r, ()), 'second'), self.fld(self.el(o, i), 'second'))
            else: self.destroy((r, ()), et)
            res = self.fresh()
            self.setf((res, ()), 'first', padd(self.begin(o), i)); self.setf((res, ()), 'second', int(new))
            return Obj((res, ()), nt(e.get('t') or 'std::pair<void *, bool>'), True)
        if n == 'swap': self.swap(o, self.lv(args[0]), c); return None
        if n == 'operator=':
            v = self.aval(args[0])
            if v.loc != o:
                self.copy_obj(v.loc, o, c)
                if self.isrv(fn, 0): self.moved_from(v.loc, c)
            return locptr(o)
        if n == 'reserve': return None
        return NotImplemented

    # --- iterators
    def iter_call(self, e, fn, n, args):
        if n in ('operator*',):
            v = self.eval(e['obj'])
            return locptr(toloc(v)) if not (isinstance(v, T) and v.op == 'rev') else padd(v.args[0], -1)
        if n == 'operator->':
            v = self.eval(e['obj'])
            return v if not (isinstance(v, T) and v.op == 'rev') else padd(v.args[0], -1)
        if n in ('operator++', 'operator--'):
            loc = self.lv(e['obj']); v = self.load(loc)
            w = padd(v, 1 if '+' in n else -1)
            self.store(loc, w)
            return v if args else locptr(loc)
        if n in ('operator+=', 'operator-='):
            loc = self.lv(e['obj']); k = self.eval(args[0]); self.store(loc, padd(self.load(loc), k if '+' in n else scale(k, -1))); return locptr(loc)
        if n in ('operator+', 'operator-'):
            v = self.eval(e['obj'] if 'obj' in e else args[0]); k = self.eval(args[0] if 'obj' in e else args[1])
            if n == 'operator+': return padd(v, k)
            if isinstance(k, T) and (is_ptrlike(k) or k.op == 'rev'): return self.arith('-', v, k)
            return padd(v, scale(k, -1))
        if n == 'operator=':
            loc = self.lv(e['obj']); self.store(loc, self.eval(args[0])); return locptr(loc)
        if n == 'operator[]': return padd(self.eval(e['obj']), self.eval(args[0]))
        if n == 'base':
            v = self.eval(e['obj'])
            return v.args[0] if isinstance(v, T) and v.op == 'rev' else v
        if n in ('operator==', 'operator!='):
            r = self.cmp('==', self.eval(e['obj']), self.eval(args[0])); return int(r == (n == 'operator=='))
        return NotImplemented

    # --- strings
    def str_call(self, e, fn, n, c, args, into):
        o = self.objloc(e)
        if n in ('operator+=', 'append'):
            a = self.aval(args[0])
            s = self.chr_(a) if nt(self.expr_t(args[0]) or '') in ('char', 'const char') else self.sval_of(a)
            if len(args) == 2: s = self.strof(a, self.eval(args[1]))
            self.setf(o, '#s', self.cat(self.getf(o, '#s'), s)); return locptr(o)
        if n == 'push_back':
            self.setf(o, '#s', self.cat(self.getf(o, '#s'), self.chr_(self.eval(args[0])))); return None
        if n in ('operator=', 'assign'):
            if len(args) == 1:
                v = self.aval(args[0])
                s = self.sval_of(v)
                self.setf(o, '#s', s)
                if isinstance(v, Obj) and nt(v.cls or '') == c and self.isrv(fn, 0) and v.loc != o: self.setf(v.loc, '#s', strlit(''))
                return locptr(o)
            self.setf(o, '#s', self.strof(self.eval(args[0]), self.eval(args[1]))); return locptr(o)
        s = self.getf(o, '#s')
        if not isinstance(s, T): s = strlit('')
        if fn.get('conv') or n.startswith('operator basic_string_view'):
            r = self.fresh(); self.setf((r, ()), '#p', self.sdata(s, o)); self.setf((r, ()), '#l', mk_slen(s))
            return Obj((r, ()), nt(e.get('t') or 'std::basic_string_view<char, std::char_traits<char>>'), True)
        if n in ('c_str', 'data'): return self.sdata(s, o)
        if n in ('size', 'length'): return mk_slen(s)
        if n == 'empty': return int(self.decide(mk_slen(s), ((0, 0),)))
        if n == 'clear': self.setf(o, '#s', strlit('')); return None
        if n == 'reserve': return None
        if n == 'get_allocator':
            r = self.fresh(); self.setf((r, ()), '#r', self.getf(o, '#r')); return Obj((r, ()), nt(e['t']), True)
        if n == 'swap': self.swap(o, self.lv(args[0]), c); return None
        return NotImplemented
    def chr_(self, v): return strlit(chr(v)) if isinstance(v, int) and 0 < v < 128 else mk('chr', v)
    def svpl(self, v):
        """(pointer, length) of a string-like value"""
        if isinstance(v, Obj):
            c = nt(v.cls or '')
            if c.startswith('std::basic_string_view<'): return self.getf(v.loc, '#p', 'char *'), self.getf(v.loc, '#l', 'unsigned long')
            if c.startswith('std::basic_string<'):
                s = self.getf(v.loc, '#s'); return self.sdata(s, v.loc), mk_slen(s)
            if c.endswith(']'): v = locptr(v.loc)
            else: raise Give('string-like ' + c)
        return v, self.strlen(v)
    def memcmp(self, p, q, l):
        """sign-relevant result of comparing l bytes"""
        p = self.norm(p); q = self.norm(q); l = self.norm(l)
        if p is q or (isinstance(p, int) and p == q): return 0
        if self.test(l, ((0, 0),)): return 0
        if isinstance(p, T) and isinstance(q, T) and p.op == 'str' and q.op == 'str' and isinstance(l, int):
            a, b = p.args[0].encode()[:l], q.args[0].encode()[:l]
            return (a > b) - (a < b)
        p = self.cval(p); q = self.cval(q)
        if dig(p) <= dig(q): return mk('res', 'memcmp', (p, q, l), 0)
        return scale(mk('res', 'memcmp', (q, p, l), 0), -1)
    def sv_eq(self, a, b):
        p, l = self.svpl(a); q, m = self.svpl(b)
        if not self.cmp('==', l, m): return False
        l = self.norm(l); m = self.norm(m)
        if self.decide(l, ((0, 0),)): return True
        return self.decide(self.memcmp(p, q, self.norm(l)), ((0, 0),))
    def sv_cmp3(self, a, b):
        p, l = self.svpl(a); q, m = self.svpl(b)
        less = self.cmp('<', l, m)
        k = self.norm(l if less else m)
        r = 0 if self.decide(k, ((0, 0),)) else self.norm(self.memcmp(p, q, k))
        if self.decide(r, ((0, 0),)):
            if less: return -1
            return 0 if self.cmp('==', l, m) else 1
        return r
    def sv_call(self, e, fn, n, c, args, into):
        o = self.objloc(e)
        p = self.getf(o, '#p', 'char *'); l = self.getf(o, '#l', 'unsigned long')
        if n in ('data', 'begin', 'cbegin'): return p
        if n in ('size', 'length'): return l
        if n in ('end', 'cend'): return padd(p, l)
        if n == 'empty': return int(self.decide(l, ((0, 0),)))
        if n in ('operator[]', 'at'): return padd(p, self.eval(args[0]))
        if n == 'front': return p
        if n == 'back': return padd(p, add(l, -1))
        if n == 'substr':
            off = self.eval(args[0]) if args else 0
            k = self.eval(args[1]) if len(args) > 1 else (1 << 64) - 1
            if not self.cmp('<=', off, l): raise CxxThrow('std::out_of_range')
            off = self.norm(off); l = self.norm(l)
            rest = sub(l, off)
            if isinstance(k, int) and k >= (1 << 63): k = rest
            elif self.decide(sub(k, rest), ((1, INF),)): k = rest
            r = self.fresh(); self.setf((r, ()), '#p', padd(p, off) if isinstance(p, T) else add(p, off)); self.setf((r, ()), '#l', self.norm(k))
            return Obj((r, ()), c, True)
        if n == 'compare' and len(args) == 1: return self.sv_cmp3(Obj(o, c), self.aval(args[0]))
        if n in ('remove_prefix', 'remove_suffix'):
            k = self.eval(args[0])
            if n == 'remove_prefix': self.setf(o, '#p', padd(p, k))
            self.setf(o, '#l', sub(l, k)); return None
        if n == 'operator=': self.copy_obj(self.lv(args[0]), o, c); return locptr(o)
        return NotImplemented

    # --- optional, pointers, function
    def opt_call(self, e, fn, n, c, args):
        o = self.objloc(e); et = self.et(c)
        if fn.get('conv') or n in ('has_value', 'operator bool'): return self.getf(o, '#has', 'bool')
        if n in ('operator*', 'value', 'operator->'):
            if n == 'value' and not self.truth(self.getf(o, '#has', 'bool')): raise CxxThrow('std::bad_optional_access')
            if e.get('lv') or n == 'operator->': return locptr(self.fld(o, '#v'))
            return self.load_or_obj(self.fld(o, '#v'), et)
        if n == 'value_or':
            d = self.eval(args[0])
            if self.truth(self.getf(o, '#has', 'bool')): return self.load_or_obj(self.fld(o, '#v'), et)
            return d
        if n in ('operator=', 'emplace'):
            vals = [self.aval(a) for a in args]
            self.std_construct(c, o, vals, [self.isrvarg(a) for a in args]); return locptr(o) if n == 'operator=' else locptr(self.fld(o, '#v'))
        if n == 'reset': self.setf(o, '#has', 0); return None
        return NotImplemented
    def ptr_call(self, e, fn, n, c, args):
        o = self.objloc(e)
        p = self.getf(o, '#p', 'void *')
        if n in ('get', 'operator->'): return p
        if n == 'operator*': return p
        if fn.get('conv') or n == 'operator bool': return int(self.truth(p))
        if n == 'release': self.setf(o, '#p', 0); return p
        if n == 'use_count': return unk('use_count')
        if n == 'get_deleter': return locptr(self.fld(o, '#d'))
        uniq = c.startswith('std::unique_ptr<')
        if n == 'reset':
            v = self.eval(args[0]) if args else 0
            self.setf(o, '#p', v)
            if uniq and self.truth(p): self.uptr_delete(o, c, p)
            if not uniq: self.setf(o, '#own', mk('owned', v) if isinstance(v, T) else 0)
            return None
        if n == 'operator=':
            v = self.aval(args[0])
            if not isinstance(v, Obj):
                self.setf(o, '#p', 0)
                if uniq:
                    if self.truth(p): self.uptr_delete(o, c, p)
                else: self.setf(o, '#own', 0)
                return locptr(o)
            if v.loc == o: return locptr(o)
            if uniq:
                np = self.getf(v.loc, '#p', 'void *'); self.setf(v.loc, '#p', 0); self.setf(o, '#p', np)
                if self.truth(p):
                    self.uptr_delete(o, c, p)
                self.copy_deleter(v.loc, o, c)
                return locptr(o)
            np = self.getf(v.loc, '#p', 'void *'); ow = self.getf(v.loc, '#own', 'void *')
            if self.isrv(fn, 0) or (nt((fn.get('pt') or [''])[0]) == '' and self.isrvarg(args[0])): self.setf(v.loc, '#p', 0); self.setf(v.loc, '#own', 0)
            self.setf(o, '#p', np); self.setf(o, '#own', ow); return locptr(o)
        if n == 'swap': self.swap(o, self.lv(args[0]), c); return None
        return NotImplemented
    def func_call(self, e, fn, n, c, args):
        o = self.objloc(e)
        if n == 'operator()':
            f = self.getf(o, '#f')
            locs = [self.lv(a) if self.byloc(a) else self.tmpval(a) for a in args]
            pt = targs(c)
            if isinstance(f, T) and f.op not in ('clos', 'fn'):
                return self.event('callback', (self.cval(f),) + tuple(self.cval(locptr(l)) if self.byloc(a) else self.cval(self.load(l)) for l, a in zip(locs, args)), True, (), kind='cb')
            return self.invoke(f, locs)
        if fn.get('conv'): return int(self.truth(self.getf(o, '#f')))
        if n == 'operator=':
            v = self.aval(args[0])
            self.std_construct(c, o, [v], [False]); return locptr(o)
        return NotImplemented
    def byloc(self, a):
        t = self.expr_t(a)
        return a.get('lv') or (t and self.is_class(t))
    def tmpval(self, a):
        r = self.fresh(); v = self.eval(a); self.put((r, ()), v, a.get('t')); return (r, ())

    # --- free functions
    def free_call(self, e, fn, q, n, args, into):
        A = lambda i: self.eval(args[i])
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::__addressof', 'std::launder', 'std::move_if_noexcept') and len(args) == 1:
            l = self.lv(args[0])
            return locptr(l)
        if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size', 'std::data', 'std::empty', 'std::rbegin', 'std::rend'):
            t = nt(self.expr_t(args[0])); l = self.lv(args[0])
            b, en = self.range_bounds(l, t)
            if n in ('begin', 'cbegin', 'data'): return b
            if n in ('end', 'cend'): return en
            if n == 'rbegin': return mk('rev', en)
            if n == 'rend': return mk('rev', b)
            return self.arith('-', en, b) if n == 'size' else int(self.it_eq(b, en))
        if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(args) == 2: return self.op_cmp(e, fn, n, args)
        if q in ('__gnu_cxx::operator-', 'std::operator-') and len(args) == 2: return self.arith('-', A(0), A(1))
        if q in ('std::operator+',) and len(args) == 2:
            t = nt(e.get('t') or '')
            if t.startswith('std::basic_string<'):
                a = self.sval_of(self.aval(args[0])); b = self.sval_of(self.aval(args[1]))
                r = self.fresh(); self.setf((r, ()), '#s', self.cat(a, b)); self.setf((r, ()), '#r', mk('defres')); return Obj((r, ()), t, True)
            return padd(A(1), A(0)) if nt(self.expr_t(args[0]) or '') in ('long', 'int') else padd(A(0), A(1))
        if q == 'std::operator<<':
            return locptr(self.lv(args[0])) if args[0].get('lv') else mk('glob', 'ostream')
        if q == 'std::get' and len(args) == 1:
            l = self.lv(args[0]); ta = fn.get('ta') or []
            t = nt(self.expr_t(args[0]))
            a = targs(t)
            m = re.match(r'(\d+)[uUlL]*$', ta[0]) if ta else None
            if m: i = int(m.group(1))
            elif ta and [nt(x) for x in a].count(nt(ta[0])) == 1: i = [nt(x) for x in a].index(nt(ta[0]))
            else: raise Unsup('std::get without an index')
            f = self.fld(l, ('first', 'second')[i] if t.startswith('std::pair<') else '#%d' % i)
            if i < len(a) and a[i].endswith('&'):
                v = self.load(f); mark_ptr(v); return v
            return locptr(f)
        if q == 'std::apply' and len(args) == 2:
            fnv = self.predv(args[0]); l = self.lv(args[1]); t = nt(self.expr_t(args[1])); a = targs(t); locs = []
            for i in range(len(a)):
                f = self.fld(l, ('first', 'second')[i] if t.startswith('std::pair<') else '#%d' % i)
                if a[i].endswith('&'):
                    v = self.load(f); mark_ptr(v); f = toloc(v)
                locs.append(f)
            return self.invoke(fnv, locs)
        if q == 'std::swap' and len(args) == 2:
            a, b = self.lv(args[0]), self.lv(args[1]); t = nt(self.expr_t(args[0]))
            if self.is_class(t): self.swap(a, b, t)
            else:
                x, y = self.load(a, t), self.load(b, t); self.store(a, y); self.store(b, x)
            return None
        if q == 'std::exchange':
            a = self.lv(args[0]); t = nt(self.expr_t(args[0]))
            if self.is_class(t):
                r = self.fresh(); self.copy_class(a, (r, ()), t, True)
                v = self.aval(args[1]); self.put(a, v, t); return Obj((r, ()), t, True)
            o = self.load(a, t); self.store(a, self.eval(args[1])); return o
        if q in ('std::min', 'std::max') and len(args) == 2:
            la, lb = self.lv(args[0]), self.lv(args[1]); t = self.expr_t(args[0])
            a, b = self.load(la, t), self.load(lb, t)
            if q == 'std::min': return locptr(lb) if self.cmp('<', b, a) else locptr(la)
            return locptr(lb) if self.cmp('<', a, b) else locptr(la)
        if q in ('std::make_pair', 'std::make_tuple', 'std::tie', 'std::forward_as_tuple'):
            t = nt(e.get('t') or ''); r = self.fresh(t)
            self.std_construct(t, (r, ()), [self.aval(a) for a in args], [self.isrvarg(a) for a in args], e); return Obj((r, ()), t, True)
        if q == 'std::uncaught_exceptions': return add(mark_uns(mk('uncaught0')), getattr(self, 'inflight', 0))
        if q == 'std::to_string':
            v = A(0); r = self.fresh(); self.setf((r, ()), '#s', strlit(str(v)) if isinstance(v, int) else mk('tostr', v)); self.setf((r, ()), '#r', mk('defres'))
            return Obj((r, ()), nt(e.get('t') or ''), True)
        if q in ('std::allocate_shared', 'std::make_shared', 'std::make_unique'):
            return self.make_shared(e, fn, q, args)
        if q in ('std::pmr::operator==', 'std::pmr::operator!='): pass
        if q in ('std::pmr::get_default_resource', 'std::pmr::new_delete_resource', 'std::pmr::null_memory_resource'):
            r = mark_ptr(mk('res', q, (), 0)); _state.NONNULL.add(r); return r if q != 'std::pmr::get_default_resource' else mk('defres')
        if q in ('std::memcpy', 'std::memset', 'std::memcmp', 'std::strlen', 'std::strcmp', 'std::malloc', 'std::free', 'std::abort', 'std::terminate'):
            if q in ('std::abort', 'std::terminate'): raise Terminate(q)
            return NotImplemented
        if q in ('std::distance',): return self.arith('-', A(1), A(0))
        if q in ('std::next', 'std::prev'):
            k = A(1) if len(args) > 1 else 1
            return padd(A(0), k if n == 'next' else scale(k, -1))
        if q == 'std::advance':
            l = self.lv(args[0]); self.store(l, padd(self.load(l), A(1))); return None
        if q == 'std::align': return NotImplemented
        if q in ('std::back_inserter', 'std::inserter'): raise Give('insert iterator')
        if q in ('std::static_pointer_cast', 'std::const_pointer_cast', 'std::reinterpret_pointer_cast'):
            l = self.lv(args[0]); r = self.fresh(); t = nt(e.get('t') or '')
            self.setf((r, ()), '#p', self.getf(l, '#p', 'void *')); self.setf((r, ()), '#own', self.getf(l, '#own')); return Obj((r, ()), t, True)
        m = getattr(self, 'alg_' + n, None)
        if m and q in ('std::' + n, 'std::_V2::' + n): return m(e, args)
        if q in ('operator new', 'operator delete'): return NotImplemented
        if q in ('operator""sv', 'std::literals::string_view_literals::operator""sv'):
            r = self.fresh(); self.setf((r, ()), '#p', A(0)); self.setf((r, ()), '#l', A(1)); return Obj((r, ()), nt(e['t']), True)
        return NotImplemented
    def make_shared(self, e, fn, q, args):
        t = nt(e.get('t') or '')
        et = targs(t)[0] if targs(t) else '?'
        S = self.S
        skip = 1 if q == 'std::allocate_shared' else 0
        al = None
        if skip:
            v = self.aval(args[0]); al = self.getf(v.loc, '#r') if isinstance(v, Obj) else v
        vals = [self.aval(a) for a in args[skip:]]
        if q == 'std::make_unique' and not et.endswith(']'):      # new T(args)
            key = ('new', et); n = S.cnt.get(key, 0); S.cnt[key] = n + 1
            p = mk('new', et, n); S.trace.append(('new', et, ()))
        else:
            key = ('new', q, et); n = S.cnt.get(key, 0); S.cnt[key] = n + 1
            p = mk('new', q + ' ' + et, n)
            S.trace.append(('new', q + ' ' + et, (al if al is not None else 0,)))
        built = False
        try: self.build((p, ()), et, vals, args[skip:]); built = True
        except CxxThrow:
            if q == 'std::make_unique': S.trace.append(('delete', et, (p,)))
            raise
        except Give as g:
            if DBG: print('GIVE', g)
            self.event('construct ' + et, tuple(self.cval(locptr(v.loc) if isinstance(v, Obj) else v) if not isinstance(v, Clo) else self.cval(v) for v in vals), True, [], kind='ctor')
        S.cls.setdefault(p, et)
        if al is not None: self.setf((p, ()), '#alloc', al)
        r = self.fresh()
        self.setf((r, ()), '#p', p)
        if q != 'std::make_unique': self.setf((r, ()), '#own', mk('owned', p))
        return Obj((r, ()), t, True)
    def op_cmp(self, e, fn, n, args):
        a, b = self.aval(args[0]), self.aval(args[1])
        op = n[8:]
        if isinstance(a, Obj) or isinstance(b, Obj):
            ca = nt(a.cls or '') if isinstance(a, Obj) else ''; cb = nt(b.cls or '') if isinstance(b, Obj) else ''
            if ca.startswith('std::basic_string') or cb.startswith('std::basic_string'):
                if op in ('==', '!='): return int(self.sv_eq(a, b) == (op == '=='))
                return int(self.cmp(op, self.sv_cmp3(a, b), 0))
            for c in (ca, cb):
                if c.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::__shared_ptr<')):
                    g = lambda v: self.getf(v.loc, '#p', 'void *') if isinstance(v, Obj) else v
                    return int(self.cmp(op, g(a), g(b)))
                if 'allocator<' in c.split('<')[0] + '<':
                    x, y = self.getf(a.loc, '#r'), self.getf(b.loc, '#r')
                    for z in (x, y):
                        if isinstance(z, T): mark_ptr(z)
                    return int(self.cmp(op, x, y))
                if c.startswith('std::optional<'):
                    g = lambda v: (self.getf(v.loc, '#has', 'bool'), self.load(self.fld(v.loc, '#v'))) if isinstance(v, Obj) and 'nullopt' not in (v.cls or '') else (0, 0) if isinstance(v, Obj) else (1, v)
                    (h1, v1), (h2, v2) = g(a), g(b)
                    h1 = self.truth(h1); h2 = self.truth(h2)
                    r = h1 == h2 and (not h1 or self.cmp('==', v1, v2))
                    return int(r == (op == '=='))
                if c.startswith('std::pmr::memory_resource'): break
                if c.startswith(SEQ) and op in ('==', '!='):
                    na, nb = self.cn(a.loc), self.cn(b.loc)
                    r = na == nb and all(self.cmp('==', self.load(self.el(a.loc, i)), self.load(self.el(b.loc, i))) for i in range(na))
                    return int(r == (op == '=='))
                if c.startswith('std::function<'):
                    v = a if isinstance(a, Obj) else b
                    return int((not self.truth(self.getf(v.loc, '#f'))) == (op == '=='))
                if c.startswith('std::pair<') and op in ('==', '!='):
                    r = all(self.cmp('==', self.getf(a.loc, f), self.getf(b.loc, f)) for f in ('first', 'second')); return int(r == (op == '=='))
            if 'memory_resource' in ca:
                x, y = locptr(a.loc), locptr(b.loc)
                if self.cmp('==', x, y): return int(op == '==')
                r = self.event('mr.is_equal', (x, y), False, (), pure=True, rt='bool')
                return int(self.truth(r) == (op == '=='))
            return NotImplemented
        return int(self.cmp(op, a, b))
    # --- algorithms (argument iterators are enumerated)
    def rng(self, args): return self.it_range(self.evit(args[0]), self.evit(args[1]))
    def evit(self, a):
        v = self.eval(a)
        if isinstance(v, Obj):
            r = self.fresh(v.cls); self.copy_obj(v.loc, (r, ()), v.cls); return Obj((r, ()), v.cls)
        return v
    def predv(self, a): return self.aval(a)
    def test_pred(self, f, l):
        v = self.invoke(f, [l])
        return self.truthv(v) if not isinstance(v, bool) else v
    def ldeq(self, l, v, t=None):
        """*it == value"""
        if isinstance(v, Obj):
            c = nt(v.cls or '')
            if c.startswith(('std::shared_ptr<', 'std::unique_ptr<')): return self.cmp('==', self.getf(l, '#p', 'void *'), self.getf(v.loc, '#p', 'void *'))
            if c.startswith('std::basic_string'): return self.sv_eq(Obj(l, v.cls), v)
            for f in self.P.byq.get('operator==', []):
                pass
            raise Give('equality of ' + c)
        return self.cmp('==', self.load(l, t), v)
    def find_(self, args, pred, neg=False):
        a, b = self.evit(args[0]), self.evit(args[1])
        n = und = 0
        while True:
            t = len(self.ctl.taken)
            if self.it_eq(a, b): return a
            if len(self.ctl.taken) != t:
                und += 1
                if und > self.U + 1: raise Bound()
            n += 1
            if n > 400: raise Give('range')
            if pred(self.it_deref(a)) != neg: return a
            a = self.it_next(a)
    def alg_find(self, e, args):
        l = self.lv(args[2]); t = self.expr_t(args[2])
        if t and self.is_class(t): return self.find_(args, lambda x: self.ldeq(x, Obj(l, nt(t))))
        v = self.load(l, t)
        return self.find_(args, lambda x: self.cmp('==', self.load(x, t), v))
    def alg_find_if(self, e, args):
        f = self.predv(args[2]); return self.find_(args, lambda x: self.test_pred(f, x))
    def alg_find_if_not(self, e, args):
        f = self.predv(args[2]); return self.find_(args, lambda x: self.test_pred(f, x), True)
    def alg_any_of(self, e, args):
        f = self.predv(args[2]); r = self.find_(args, lambda x: self.test_pred(f, x)); return int(not self.it_eq(r, self.evit(args[1])))
    def alg_none_of(self, e, args): return 1 - self.alg_any_of(e, args)
    def alg_all_of(self, e, args):
        f = self.predv(args[2]); r = self.find_(args, lambda x: self.test_pred(f, x), True); return int(self.it_eq(r, self.evit(args[1])))
    def alg_count_if(self, e, args):
        f = self.predv(args[2]); return sum(1 for i in self.rng(args) if self.test_pred(f, self.it_deref(i)))
    def alg_count(self, e, args):
        v = self.load(self.lv(args[2]), self.expr_t(args[2])); return sum(1 for i in self.rng(args) if self.cmp('==', self.load(self.it_deref(i)), v))
    def alg_for_each(self, e, args):
        f = self.predv(args[2])
        for i in self.rng(args): self.invoke(f, [self.it_deref(i)])
        return unk('for_each')
    def pte(self, args, i=0):
        """element type of an iterator argument"""
        t = nt(self.expr_t(args[i]) or '')
        if t.endswith('*'): return nt(t[:-1])
        a = targs(t)
        if t.startswith('__gnu_cxx::__normal_iterator'): return nt(re.sub(r'\*\s*$', '', a[0].strip())) if a else None
        if t.startswith(('std::_Rb_tree', 'std::_Deque_iterator')): return nt(a[0]) if a else None
        return None
    def mvel(self, src, dst, et):
        if src == dst: return
        if et and self.is_class(et): self.copy_obj(src, dst, et)
        else: self.store(dst, self.load(src, et))
    def remove_(self, args, pred):
        a, b = self.evit(args[0]), self.evit(args[1])
        et = self.pte(args)
        if et and self.needs_dtor(et): raise Give('remove of owning elements')
        out = a
        for i in self.it_range(a, b):
            l = self.it_deref(i)
            if not pred(l):
                self.mvel(l, self.it_deref(out), et); out = self.it_next(out)
        return out
    def alg_remove_if(self, e, args):
        f = self.predv(args[2]); return self.remove_(args, lambda l: self.test_pred(f, l))
    def alg_remove(self, e, args):
        v = self.load(self.lv(args[2]), self.expr_t(args[2])); return self.remove_(args, lambda l: self.cmp('==', self.load(l), v))
    def alg_unique(self, e, args):
        its = self.rng(args)
        if not its: return self.evit(args[0])
        out = its[0]; et = self.pte(args)
        for i in its[1:]:
            if self.cmp('==', self.load(self.it_deref(out)), self.load(self.it_deref(i))): continue
            out = self.it_next(out); self.mvel(self.it_deref(i), self.it_deref(out), et)
        return self.it_next(out)
    def less_(self, args, k):
        if len(args) > k:
            f = self.predv(args[k])
            return lambda x, y: self.truthv(self.invoke(f, [x, y]))
        return lambda x, y: self.cmp('<', self.load(x), self.load(y))
    def sort_(self, args, stable):
        less = self.less_(args, 2); et = self.pte(args)
        its = self.rng(args)
        vals = []
        for i in its:
            r = self.fresh(); self.mvel(self.it_deref(i), (r, ()), et); vals.append((r, ()))
        out = []
        for v in vals:
            k = len(out)
            while k > 0 and less(v, out[k - 1]): k -= 1
            out.insert(k, v)
        for i, v in zip(its, out): self.mvel(v, self.it_deref(i), et)
        return None
    def alg_sort(self, e, args): return self.sort_(args, False)
    def alg_stable_sort(self, e, args): return self.sort_(args, True)
    def alg_lower_bound(self, e, args):
        l = self.lv(args[2]); less = self.less_(args, 3)
        return self.find_(args, lambda x: less(x, l), True)
    def alg_upper_bound(self, e, args):
        l = self.lv(args[2]); less = self.less_(args, 3)
        return self.find_(args, lambda x: less(l, x))
    def alg_binary_search(self, e, args):
        l = self.lv(args[2]); less = self.less_(args, 3)
        i = self.find_(args, lambda x: less(x, l), True)
        return int(not self.it_eq(i, self.evit(args[1])) and not less(l, self.it_deref(i)))
    def alg_max_element(self, e, args): return self.extreme(args, lambda less, x, best: less(best, x))
    def alg_min_element(self, e, args): return self.extreme(args, lambda less, x, best: less(x, best))
    def extreme(self, args, better):
        less = self.less_(args, 2); its = self.rng(args)
        if not its: return self.evit(args[1])
        b = its[0]
        for i in its[1:]:
            if better(less, self.it_deref(i), self.it_deref(b)): b = i
        return b
    def alg_copy(self, e, args):
        out = self.evit(args[2]); et = self.pte(args, 2) or self.pte(args)
        for i in self.rng(args):
            self.mvel(self.it_deref(i), self.it_deref(out), et); out = self.it_next(out)
        return out
    alg_move = alg_copy
    def alg_copy_n(self, e, args):
        k = self.pin(self.eval(args[1])); out = self.evit(args[2]); i = self.evit(args[0]); et = self.pte(args)
        if not isinstance(k, int): raise Give('copy_n')
        for _ in range(k): self.mvel(self.it_deref(i), self.it_deref(out), et); i = self.it_next(i); out = self.it_next(out)
        return out
    def alg_uninitialized_copy(self, e, args): return self.alg_copy(e, args)
    def alg_fill(self, e, args):
        v = self.aval(args[2])
        for i in self.rng(args): self.put(self.it_deref(i), v, self.pte(args))
        return None
    def alg_fill_n(self, e, args):
        k = self.pin(self.eval(args[1])); v = self.aval(args[2]); i = self.evit(args[0])
        if not isinstance(k, int) or k > 400: raise Give('fill_n')
        for _ in range(k): self.put(self.it_deref(i), v, None); i = self.it_next(i)
        return i
    def alg_reverse(self, e, args):
        its = self.rng(args); et = self.pte(args); vs = []
        for i in its:
            r = self.fresh(); self.mvel(self.it_deref(i), (r, ()), et); vs.append((r, ()))
        for i, v in zip(its, reversed(vs)): self.mvel(v, self.it_deref(i), et)
        return None
    def alg_rotate(self, e, args):
        a, m, b = (self.evit(x) for x in args[:3]); et = self.pte(args)
        x = self.it_range(a, m); y = self.it_range(m, b); vs = []
        for i in y + x:
            r = self.fresh(); self.mvel(self.it_deref(i), (r, ()), et); vs.append((r, ()))
        for i, v in zip(x + y, vs): self.mvel(v, self.it_deref(i), et)
        return padd(a, len(y))
    def alg_accumulate(self, e, args):
        v = self.eval(args[2])
        if len(args) > 3: raise Give('accumulate with functor')
        for i in self.rng(args): v = self.arith('+', v, self.load(self.it_deref(i)))
        return v
    def alg_equal(self, e, args):
        a = self.rng(args)
        rest = args[2:]
        f = None
        if rest and self.kindfn(rest[-1]): f = self.predv(rest[-1]); rest = rest[:-1]
        b = self.evit(rest[0])
        if len(rest) == 2:
            bs = self.it_range(b, self.evit(rest[1]))
            if len(bs) != len(a): return 0
        for i in a:
            x, y = self.it_deref(i), self.it_deref(b)
            ok = self.truthv(self.invoke(f, [x, y])) if f is not None else self.cmp('==', self.load(x), self.load(y))
            if not ok: return 0
            b = self.it_next(b)
        return 1
    def kindfn(self, a):
        t = nt(self.expr_t(a) or '')
        return a['k'] == 'lambda' or '(lambda' in t or '(anonymous class)' in t or self.kind(t) == 'rec' and any(m['n'] == 'operator()' for m in self.rec(t)['ms'])
    def alg_lexicographical_compare(self, e, args):
        a = self.rng(args); b = self.it_range(self.evit(args[2]), self.evit(args[3]))
        less = self.less_(args, 4)
        for i, j in zip(a, b):
            x, y = self.it_deref(i), self.it_deref(j)
            if less(x, y): return 1
            if less(y, x): return 0
        return int(len(a) < len(b))
    def alg_swap_ranges(self, e, args):
        out = self.evit(args[2]); et = self.pte(args)
        for i in self.rng(args):
            a, b = self.it_deref(i), self.it_deref(out)
            r = self.fresh(); self.mvel(a, (r, ()), et); self.mvel(b, a, et); self.mvel((r, ()), b, et); out = self.it_next(out)
        return out
    def alg_copy_if(self, e, args):
        out = self.evit(args[2]); et = self.pte(args); f = self.predv(args[3])
        for i in self.rng(args):
            if self.test_pred(f, self.it_deref(i)): self.mvel(self.it_deref(i), self.it_deref(out), et); out = self.it_next(out)
        return out
    def alg_copy_backward(self, e, args):
        its = self.rng(args); out = self.evit(args[2]); et = self.pte(args)
        for i in reversed(its): out = padd(out, -1); self.mvel(self.it_deref(i), self.it_deref(out), et)
        return out
    alg_move_backward = alg_copy_backward
    def alg_for_each_n(self, e, args):
        k = self.pin(self.eval(args[1])); f = self.predv(args[2]); i = self.evit(args[0])
        if not isinstance(k, int): raise Give('for_each_n')
        for _ in range(k): self.invoke(f, [self.it_deref(i)]); i = self.it_next(i)
        return i
    def alg_transform(self, e, args):
        f = self.predv(args[-1]); its = self.rng(args)
        if len(args) == 4:
            out = self.evit(args[2])
            for i in its: self.put(self.it_deref(out), self.invoke(f, [self.it_deref(i)]), None); out = self.it_next(out)
        else:
            j = self.evit(args[2]); out = self.evit(args[3])
            for i in its: self.put(self.it_deref(out), self.invoke(f, [self.it_deref(i), self.it_deref(j)]), None); out = self.it_next(out); j = self.it_next(j)
        return out
    def alg_iota(self, e, args):
        v = self.eval(args[2])
        for i in self.rng(args): self.put(self.it_deref(i), v, None); v = self.arith('+', v, 1)
    def alg_generate(self, e, args):
        f = self.predv(args[2])
        for i in self.rng(args): self.put(self.it_deref(i), self.invoke(f, []), None)
    def alg_replace(self, e, args):
        o = self.load(self.lv(args[2])); w = self.aval(args[3])
        for i in self.rng(args):
            if self.cmp('==', self.load(self.it_deref(i)), o): self.put(self.it_deref(i), w, None)
    def alg_adjacent_find(self, e, args):
        its = self.rng(args); f = self.predv(args[2]) if len(args) > 2 else None
        for a, b in zip(its, its[1:]):
            x, y = self.it_deref(a), self.it_deref(b)
            if (self.truthv(self.invoke(f, [x, y])) if f is not None else self.cmp('==', self.load(x), self.load(y))): return a
        return self.evit(args[1])
    def alg_mismatch(self, e, args): raise Give('mismatch')
    def alg_is_sorted(self, e, args):
        less = self.less_(args, 2); its = self.rng(args)
        return int(not any(less(self.it_deref(b), self.it_deref(a)) for a, b in zip(its, its[1:])))
    def alg_clamp(self, e, args):
        lv, lo, hi = (self.lv(a) for a in args[:3])
        v, a, b = self.load(lv), self.load(lo), self.load(hi)
        if self.cmp('<', v, a): return locptr(lo)
        return locptr(hi) if self.cmp('<', b, v) else locptr(lv)
    def alg_iter_swap(self, e, args):
        a, b = self.it_deref(self.eval(args[0])), self.it_deref(self.eval(args[1])); et = self.pte(args)
        r = self.fresh(); self.mvel(a, (r, ()), et); self.mvel(b, a, et); self.mvel((r, ()), b, et)

    # --- ranges of library containers
    def std_range(self, o, t):
        if t.startswith('std::array<'):
            p = self.begin(o); return p, padd(p, int(targs(t)[1]))
        if t.startswith('std::initializer_list<'):
            p = self.getf(o, '#p', 'void *'); n = self.pin(self.getf(o, '#n', 'unsigned long'))
            return p, padd(p, n)
        if t.startswith('std::basic_string'):
            p, l = self.svpl(Obj(o, t)); return p, padd(p, l)
        if sf(t) and '#c' in sf(t): return self.begin(o), self.iend(o)
        raise Give('range ' + t)

def mk_slen(s):
    if s.op == 'str': return len(s.args[0].encode())
    if s.op == 'strof': return s.args[1]
    if s.op == 'cat':
        r = 0
        for x in s.args: r = add(r, mk_slen(x))
        return r
    return mark_uns(mk('slen', s))

def ITER(t):
    from interp import ITER_PAT
    return bool(ITER_PAT.match(t))
