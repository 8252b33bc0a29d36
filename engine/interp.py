"""Path-sensitive effect summaries: abstract execution of one function body along one decision list."""
import re, sys
from terms import *
from state import *
import state as _state
sys.setrecursionlimit(20000)

ITER_PAT = re.compile(r'^(__gnu_cxx::__normal_iterator|std::_Rb_tree_(const_)?iterator|std::_Deque_iterator|std::reverse_iterator|std::move_iterator|std::atomic<|std::__atomic_base|std::atomic_flag|std::byte\b|std::nullptr_t|std::type_info|std::pmr::memory_resource$)')
STD_FIELDS = [
    ('std::vector<', ['#n', '#c', '#r']), ('std::deque<', ['#n', '#c', '#r']), ('std::array<', ['#c']),
    ('std::set<', ['#n', '#c', '#r']), ('std::map<', ['#n', '#c', '#r']), ('std::unordered_map<', ['#n', '#c', '#r']), ('std::unordered_set<', ['#n', '#c', '#r']), ('std::multimap<', ['#n', '#c', '#r']), ('std::multiset<', ['#n', '#c', '#r']),
    ('std::unique_ptr<', ['#p', '#d']), ('std::shared_ptr<', ['#p', '#own']), ('std::__shared_ptr<', ['#p', '#own']), ('std::weak_ptr<', ['#p', '#own']),
    ('std::optional<', ['#has', '#v']), ('std::basic_string<', ['#s', '#r']), ('std::basic_string_view<', ['#p', '#l']),
    ('std::function<', ['#f']), ('std::pair<', ['first', 'second']), ('std::pmr::polymorphic_allocator<', ['#r']), ('std::allocator<', ['#r']),
    ('std::initializer_list<', ['#p', '#n']), ('std::reference_wrapper<', ['#p']), ('std::unique_lock<', ['#m', '#owns']), ('std::shared_lock<', ['#m', '#owns']), ('std::lock_guard<', ['#m', '#owns']), ('std::scoped_lock<', ['#m', '#owns']),
    ('std::tuple<', ['#0', '#1', '#2', '#3']),
]
def norm_t(t):
    if t is None: return ''
    t = t.strip()
    while True:
        if t.startswith('const '): t = t[6:]
        elif t.startswith('volatile '): t = t[9:]
        elif t.endswith('&'): t = t[:-1].strip()
        elif t.endswith(' const'): t = t[:-6]
        else: return t
def std_fields(t):
    for p, f in STD_FIELDS:
        if t.startswith(p): return f
    return None

OPAQUE = re.compile(r'^dynamix::(domain::(?!domain$|~domain$|impl|from_c_handle$|to_c_hanlde$)[a-z_]+|object_mutation::(~object_mutation|default_construct_each_new_mixin|rollback|finalize)|object::(reset_type|clear|copy|copy_from|copy_matching_from|move_matching_from|equals|compare|~object)|type::(find_next_\w+|compare|allocate_object_buffer|deallocate_object_buffer|is_of))$')
PURE_OPAQUE = {'dynamix::type::find_next_implementer', 'dynamix::type::find_next_bidder_set', 'dynamix::type::compare', 'dynamix::type::is_of', 'dynamix::object::equals', 'dynamix::object::compare',
               'dynamix::domain::get_allocator', 'dynamix::domain::get_empty_type', 'dynamix::domain::num_types', 'dynamix::domain::num_type_queries', 'dynamix::domain::num_mutation_rules', '_dynamix_get_mixin_info', '_dynamix_get_domain', 'memcmp', 'strlen',
               'dynamix::domain::get_mixin_info', 'dynamix::domain::get_feature_info', 'dynamix::domain::get_type_class', 'std::uncaught_exceptions', 'std::type_info::name'}
NOTHROW_C = {'memcpy', 'memset', 'memcmp', 'memmove', 'strlen', 'free', 'malloc', 'aligned_alloc', 'memchr', 'strcmp', 'calloc', 'realloc', 'posix_memalign'}

class Frame:
    __slots__ = ('env', 'this', 'fn', 'ret', 'scopes')
    def __init__(self, fn, this): self.env = {}; self.this = this; self.fn = fn; self.ret = None; self.scopes = []

from loops import Loops
from std import Std
NOT0 = iv_not(((0, 0),))
class Interp(Loops, Std, Mem):
    MAXSTEPS = 60000
    def __init__(self, prog, opaque_extra=None, top=None):
        self.P = prog
        self.sdl = {}
        self.S = St(); self.ctl = Ctl([])
        self.frames = []
        self.temps = [[]]
        self.CLOS = {}
        self.callstack = []
        self.inl = set()          # functions inlined (coverage)
        self.topu = None
        self.opaque = OPAQUE
        self.steps = 0
        self.lockmode = False
        self.gread = None
        self.files = set(); self.CG = None

    # ------------------------------------------------------------ types
    def kind(self, t):
        t = norm_t(t)
        if not t: return 'scalar'
        if t.endswith('*') or t.endswith('*const'): return 'scalar'
        if t.endswith(']'): return 'array'
        if ITER_PAT.match(t): return 'scalar'
        if std_fields(t) is not None: return 'std'
        if t in self.P.recs: return 'rec'
        if t.startswith('std::') or t.startswith('__gnu_cxx'): return 'opaque' if '<' in t or t in ('std::mutex', 'std::shared_mutex', 'std::exception') else 'scalar'
        if '(lambda' in t or '(anonymous class)' in t: return 'lambda'
        return 'scalar'
    def is_class(self, t): return self.kind(t) in ('std', 'rec', 'opaque', 'array', 'lambda')
    def rec(self, t):
        t = norm_t(t)
        r = self.P.recs.get(t)
        if r is None: r = self.P.recq.get(t)
        return r
    def rec_fields(self, r, seen=None):
        out = []
        for b in r['bs']:
            br = self.rec(b['t'])
            if br: out += self.rec_fields(br)
            elif std_fields(norm_t(b['t'])): out += [(f, None) for f in std_fields(norm_t(b['t']))]
        for f in r['fs']:
            if f['n']: out.append((f['n'], f['t']))
        return out

    # ------------------------------------------------------------ objects
    def copy_obj(self, src, dst, t, move=False):
        """copy the object at src to dst"""
        t = norm_t(t or '')
        sr, sp = src
        S = self.S
        sr, sp = self.resolve(self.nloc(src)); dst = self.resolve(self.nloc(dst))
        S = self.S
        arr = t.endswith(']')
        if (sr, sp) == dst: return
        if isinstance(sr, T) and sr.op == 'loc':
            # local source: everything known is in cells
            n = len(sp)
            va = [(k[1][n:], S.cells[k]) for k in self.sub_keys(sr, sp, arr)]
            vv = [(k[1][n:], S.ver[k]) for k in self.sub_vers(sr, sp, arr)]
            if not any(p == () for p, _ in vv):
                b = self.base_of(sr, sp)
                if b is not None: vv.append(((), b))
            self.drop_sub(dst[0], dst[1], arr); S.cells.pop(dst, None)
            for p, x in vv: S.ver[(dst[0], dst[1] + p)] = x
            for p, x in va: S.cells[(dst[0], dst[1] + p)] = x
            if sr in S.sym or any(a[0] == '[' and isinstance(a[1], T) for a in dst[1]): S.sym[dst[0]] = True
            if sr in S.cls and not dst[1] and dst[0] not in S.cls: S.cls[dst[0]] = S.cls[sr]
            return
        k = self.kind(t)
        if k == 'rec':
            r = self.rec(t)
            ref = [(f, ft) for f, ft in self.rec_fields(r)]
            vals = []
            for f, ft in ref:
                if ft and self.kind(ft) in ('std', 'rec', 'array', 'opaque') and not ft.endswith('&'):
                    vals.append((f, None, ft))
                else: vals.append((f, self.load((sr, sp + (('.', f),)), ft), ft))
            for f, v, ft in vals:
                if v is None: self.copy_obj((sr, sp + (('.', f),)), (dst[0], dst[1] + (('.', f),)), ft, move)
                else: self.store((dst[0], dst[1] + (('.', f),)), v)
            return
        if k == 'std':
            vals = []
            fs = std_fields(t)
            if t.startswith('std::tuple<'):
                fs = ['#%d' % i for i in range(len(split_targs(t)))]
            for f in fs:
                if f == '#c': 
                    if '#n' in fs:
                        n = self.cn((sr, sp)); et = self.elem_t(t)
                        for i in range(n):
                            if et and self.is_class(et): vals.append((('#c', i), Obj(self.el((sr, sp), i), et)))
                            else: vals.append((('#c', i), self.load(self.el((sr, sp), i), et)))
                    else: vals.append((f, self.load((sr, sp + (('.', f),)))))
                elif f in ('#v', 'first', 'second', '#d') or (f[1:].isdigit()):
                    et = self.elem_t(t, f)
                    if et and self.is_class(et): vals.append((f, Obj((sr, sp + (('.', f),)), et)))
                    else: vals.append((f, self.load((sr, sp + (('.', f),)), et)))
                else: vals.append((f, self.load((sr, sp + (('.', f),)), 'unsigned long' if f == '#n' else 'void *' if f == '#p' else None)))
            for f, v in vals:
                d = (dst[0], dst[1] + (('.', f),)) if not isinstance(f, tuple) else self.el(dst, f[1])
                if isinstance(v, Obj): self.copy_obj(v.loc, d, v.cls, move)
                else: self.store(d, v)
            return
        # opaque: by value
        self.store(dst, self.load(src, t))
    def elem_t(self, t, f=None):
        a = split_targs(t)
        if not a: return None
        if t.startswith('std::pair<') or t.startswith('std::tuple<'):
            i = {'first': 0, 'second': 1}.get(f)
            if i is None and f and f[1:].isdigit(): i = int(f[1:])
            return a[i] if i is not None and i < len(a) else None
        if t.startswith(('std::map<', 'std::multimap<', 'std::unordered_map<')): return 'std::pair<%s, %s>' % (a[0], a[1])
        return a[0]
    def moved_from(self, loc, t):
        t = norm_t(t or '')
        fs = std_fields(t)
        if not fs: return
        if '#n' in fs and '#c' in fs:
            self.setf(loc, '#n', 0); self.S.ver.pop(self.fld(loc, '#c'), None); self.drop_sub(*self.fld(loc, '#c'), True)
        elif t.startswith('std::unique_ptr') or t.startswith('std::shared_ptr'):
            for f in fs: self.setf(loc, f, 0)
        elif t.startswith(('std::unique_lock', 'std::shared_lock')): self.setf(loc, '#owns', 0)
        elif t.startswith('std::basic_string<'): self.setf(loc, '#s', mk('str', ''))
    def fld(self, loc, f): return (loc[0], loc[1] + (('.', f),))
    def getf(self, loc, f, t=None): return self.load(self.fld(loc, f), t)
    def setf(self, loc, f, v): self.store(self.fld(loc, f), v)

    # ------------------------------------------------------------ events
    def event(self, name, args, throws, hv=(), pure=False, kind='call', rt=None):
        """opaque call: args canonical tuple; hv: locations the callee may modify"""
        S = self.S
        args = self.norm(args)
        if pure:
            r = mk('res', name, args, 0)
        else:
            key = (name, args)
            n = S.cnt.get(key, 0); S.cnt[key] = n + 1
            r = mk('res', name, args, n)
        if rt:
            if rt.endswith('*'): mark_ptr(r)
            if rt.startswith('unsigned') or rt == 'bool': mark_uns(r)
            if rt == 'bool': _state.BOOLT.add(r)
        if throws and self.decide(mk('throws', r), ((1, 1),)):
            if not pure: S = self.S; S.trace.append((kind + '!', name, self.norm(args)))
            raise CxxThrow('?user', mk('exc', r), user=True)
        if not pure: self.S.trace.append((kind, name, self.norm(args)))
        for i, loc in enumerate(hv):
            if loc is not None: self.havoc(loc, mk('out', r, i))
        return self.norm(r)

    # ------------------------------------------------------------ expressions
    def lv(self, e):
        k = e['k']
        f = getattr(self, 'lv_' + k, None)
        if f and (e.get('lv') or k in ('var', 'mem', 'glob', 'str', 'bind')): return f(e)
        if f and k in ('call', 'cond'):
            pass
        # rvalue: materialise
        return self.materialise(e)
    def materialise(self, e):
        t = self.expr_t(e)
        if k_trivial_scalar(self, t) and e['k'] not in ('ctor', 'tmp', 'init', 'lambda', 'cstruct', 'full'):
            v = self.eval(e)
            if isinstance(v, Obj): return v.loc
            r = self.fresh()
            self.store((r, ()), v)
            return (r, ())
        r = self.fresh(norm_t(t) if t else None)
        self.eval_into(e, (r, ()), temp=True)
        return (r, ())
    def expr_t(self, e):
        while True:
            t = e.get('t')
            k = e['k']
            if k == 'ctor': return e['cls']
            if k in ('full', 'tmp', 'stdinit') and 'a' in e:
                e = e['a']; continue
            if k == 'call' and not t and 'fn' in e:
                f = self.P.fns.get(e['fn']['u'])
                return norm_t(f['ret']) if f else e['fn'].get('rt')
            return t
    def eval(self, e):
        k = e['k']
        if k == 'fn': return self.ev_fn(e)
        if e.get('lv') and k in LVK:
            loc = self.lv(e)
            t = e.get('t')
            if t and self.is_class(t): return Obj(loc, norm_t(t))
            return self.load(loc, t)
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            return unk('expr ' + k)
        return m(e)
    def cond(self, e):
        k = e['k']
        if k == 'bin':
            op = e['op']
            if op == '&&': return self.cond(e['a']) and self.cond(e['b'])
            if op == '||': return self.cond(e['a']) or self.cond(e['b'])
            if op in CMP: return self.cmp(op, self.eval(e['a']), self.eval(e['b']), e)
        elif k == 'un' and e['op'] == '!': return not self.cond(e['a'])
        elif k == 'tobool': return self.truthv(self.eval(e['a']))
        elif k == 'full':
            self.temps.append([])
            try: r = self.cond(e['a'])
            finally: self.end_temps()
            return r
        elif k == 'cond':
            return self.cond(e['a']) if self.cond(e['c']) else self.cond(e['b'])
        elif k == 'icast': return self.cond(e['a']) if not e.get('trunc') else self.truthv(self.eval(e))
        return self.truthv(self.eval(e))
    def truthv(self, v):
        if isinstance(v, Obj): raise Give('truth of object ' + str(v.cls))
        return self.truth(v)
    def cmp(self, op, a, b, e=None):
        if isinstance(a, Obj) or isinstance(b, Obj): raise Give('comparison of objects')
        if e is not None and e.get('flt'):
            if isinstance(a, int) and isinstance(b, int): return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
            if op in ('>', '>='): a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            neg = op == '!='
            if neg: op = '=='
            if op == '==': a, b = sorted((a, b), key=dig)
            r = self.decide(mk('fcmp', op, a, b), ((1, 1),))
            return r != neg
        for x in (a, b):
            if isinstance(x, T) and x.op == 'rev':
                if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'rev': return self.cmp(op, b.args[0], a.args[0], None) if op not in ('==', '!=') else self.cmp(op, a.args[0], b.args[0])
                raise Give('reverse iterator comparison')
        if e is not None and e.get('uns'):
            for x in (a, b):
                if isinstance(x, T) and x.op != 'lin' and not is_ptrlike(x): mark_uns(x)
        if op in ('==', '!='):
            q = ptr_distinct(a, b, self.inhist())
            if q: return op == '!='
        elif self.inhist():
            r = addr_order(a, b)
            if r is not None: return {'<': r < 0, '<=': r < 0, '>': r > 0, '>=': r > 0}[op]
        d = sub(a, b)
        iv = CMP[op]
        return self.decide(d, iv)

    def ev_int(self, e): return int(e['v'])
    def ev_null(self, e): return 0
    def ev_float(self, e):
        try:
            f = float(e['v'])
            if f == int(f): return int(f)
        except ValueError: pass
        return mk('flt', e['v'])
    def ev_str(self, e): return mk('str', e['v'])
    def lv_str(self, e): return (mk('str', e['v']), ())
    def ev_cstruct(self, e):
        return self.cst(e)
    def cst(self, e):
        out = []
        for f, v in e['f']:
            try: out.append((f, int(re.sub(r'^\{+(-?\d+)\}+$', r'\1', v) if isinstance(v, str) else v)))
            except ValueError:
                out.append((f, mk('cst', v)))
        return mk('sval', norm_t(e.get('t', '')), tuple(out))
    def ev_this(self, e): return locptr(self.frames[-1].this)
    def ev_var(self, e): return self.load(self.lv_var(e), e.get('t'))
    def lv_var(self, e):
        f = self.frames[-1]
        b = f.env.get(e['d'])
        if b is None:
            for g in reversed(self.frames[:-1]):
                if e['d'] in g.env and g.fn is f.fn: return g.env[e['d']]
            raise Give('unbound variable ' + e['n'])
        return b
    def lv_glob(self, e):
        q = e['q']
        g = self.P.globals.get(q)
        t = e.get('t') or ''
        r = mk('glob', q)
        if 'static-local:' in q: return (mk('glob', ('thread:' if q.startswith('thread:') else 'static:') + norm_t(t)), ())
        if g and g['t'].endswith('&') and 'init' in g:
            # reference global: resolve through its initialiser when that is a plain address
            return (mk('ini', r, (('.', '&ref'),)), ())
        return (r, ())
    def lv_bind(self, e):
        b = self.frames[-1].env.get(e['d'])
        if b is not None: return b
        if 'a' in e: return self.lv(e['a'])
        raise Give('binding ' + e['n'])
    ev_bind = lambda self, e: self.load(self.lv_bind(e))
    def lv_mem(self, e):
        b = e['b']
        if e.get('arrow'): r, p = toloc(self.eval(b))
        else: r, p = self.lv(b)
        loc = (r, p + (('.', e['f']),)) if e['f'] else (r, p)
        if e.get('isref'):
            v = self.load(loc); 
            mark_ptr(v); _state.NONNULL.add(v) if isinstance(v, T) else None
            return toloc(v)
        return loc
    def ev_mem(self, e):
        if not e.get('lv') and not e.get('arrow'):
            v = self.eval(e['b'])
            if isinstance(v, Obj): return self.load_or_obj((v.loc[0], v.loc[1] + (('.', e['f']),)), e.get('t'))
            if isinstance(v, T): return self.proj(v, (('.', e['f']),))
        return self.load_or_obj(self.lv_mem(e), e.get('t'))
    def load_or_obj(self, loc, t):
        if t and self.is_class(t): return Obj(loc, norm_t(t))
        return self.load(loc, t)
    def lv_idx(self, e):
        b = self.eval(e['b']) if not (e['b']['k'] == 'decay') else self.ev_decay(e['b'])
        if isinstance(b, Obj): b = locptr(b.loc)
        return toloc(padd(b, self.eval(e['i'])))
    ev_idx = lambda self, e: self.load_or_obj(self.lv_idx(e), e.get('t'))
    def ev_decay(self, e):
        loc = self.lv(e['a'])
        return locptr(loc)
    def lv_un(self, e):
        op = e['op']
        if op == '*':
            v = self.eval(e['a'])
            if isinstance(v, Obj): return v.loc
            if isinstance(v, T) and v.op == 'rev': return toloc(padd(v.args[0], -1))
            if self.assuming and isinstance(v, T) and v.op == 'ini': self.assume(v, NOT0)   # the confirmed instance dereferences it
            return toloc(v)
        if op in ('++', '--'):
            loc = self.lv(e['a'])
            v = self.load(loc, e['a'].get('t'))
            self.store(loc, self.fit(padd(v, 1 if op == '++' else -1) if isinstance(v, T) else v + (1 if op == '++' else -1), e['a']))
            return loc
        if op in ('__extension__',): return self.lv(e['a'])
        raise Give('lvalue un ' + op)
    def ev_un(self, e):
        op = e['op']
        if op == '&': return locptr(self.lv(e['a']))
        if op == '!': return int(not self.cond(e['a']))
        if op in ('++', '--'):
            loc = self.lv(e['a'])
            v = self.load(loc, e['a'].get('t'))
            k = 1 if op == '++' else -1
            n = self.fit(padd(v, k) if isinstance(v, T) else v + k, e['a'])
            self.store(loc, n)
            return v if e.get('post') else n
        if op == '-': return scale(self.sc(e['a']), -1)
        if op == '+': return self.sc(e['a'])
        if op == '~': return self.arith('~', self.sc(e['a']), 0)
        if op == '*': return self.load_or_obj(self.lv_un(e), e.get('t'))
        return self.eval(e['a'])
    def sc(self, e):
        v = self.eval(e)
        if isinstance(v, Obj): raise Give('object used as scalar %s' % v.cls)
        return v
    def arith(self, op, a, b, e=None):
        if e is not None and e.get('flt'):
            return mk('f' + op, a, b) if not (isinstance(a, int) and isinstance(b, int)) or op == '/' else {'+': a + b, '-': a - b, '*': a * b}[op]
        if op == '+':
            if isinstance(a, T) and (is_ptrlike(a) or a.op == 'rev'): return padd(a, b)
            if isinstance(b, T) and is_ptrlike(b): return padd(b, a)
            return add(a, b)
        if op == '-':
            if isinstance(a, T) and a.op == 'rev' and isinstance(b, T) and b.op == 'rev': return sub(b.args[0], a.args[0])
            if isinstance(a, T) and (is_ptrlike(a) or a.op == 'rev') and not (isinstance(b, T) and is_ptrlike(b)): return padd(a, scale(b, -1))
            return sub(a, b)
        if op == '*': return mul(a, b)
        if isinstance(a, int) and isinstance(b, int):
            try:
                if op == '/': return int(a / b) if abs(a) < 2**50 else a // b
                if op == '%': return a - b * int(a / b)
                if op == '&': return a & b
                if op == '|': return a | b
                if op == '^': return a ^ b
                if op == '<<': return a << b
                if op == '>>': return a >> b
                if op == '~': return ~a
            except ZeroDivisionError: return unk('div0')
        if op == '<<' and isinstance(b, int): return mul(a, 1 << b)
        if op == '/': return div(a, b)
        if op == '%': return mod(a, b)
        if op in ('&', '|', '^'): a, b = sorted((a, b), key=dig)
        r = mk('op' + op, a, b)
        if op in ('/', '%', '&', '>>'): mark_uns(r)
        return r
    def ev_bin(self, e):
        op = e['op']
        if op in ('&&', '||') or op in CMP: return int(self.cond(e))
        if op == ',':
            self.discard(e['a']); return self.eval(e['b'])
        if op == '<=>': return unk('spaceship')
        if op in ('->*', '.*'): return self.load_or_obj(self.lv_bin(e), e.get('t'))
        a = self.sc(e['a']); b = self.sc(e['b'])
        if op in ('/', '%') and not e.get('flt'):
            a, b = self.wraps(a, e['a']), self.wraps(b, e['b'])
        return self.arith(op, a, b, e)
    def wraps(self, v, e):
        """a signed value divided as an unsigned one"""
        if not (e.get('s2u') and isinstance(v, T)) or 'unsigned long' not in str(e.get('t')): return v
        if self.test(v, ((0, INF),)) is True: return v
        return mk('tou', v)
    def lv_bin(self, e):
        if e['op'] == ',': self.discard(e['a']); return self.lv(e['b'])
        if e['op'] in ('->*', '.*'):
            r, p = toloc(self.eval(e['a'])) if e['op'] == '->*' else self.lv(e['a'])
            m = self.eval(e['b'])
            if isinstance(m, T) and m.op == 'memptr': return (r, p + (('.', m.args[0].split('::')[-1]),))
            raise Give('symbolic pointer to member')
        raise Give('lvalue bin ' + e['op'])
    def lv_asgn(self, e):
        v = self.eval(e['b'])
        loc = self.lv(e['a'])
        if isinstance(v, Obj): self.copy_obj(v.loc, loc, v.cls or e['a'].get('t'))
        else: self.store(loc, v)
        return loc
    def ev_asgn(self, e):
        loc = self.lv_asgn(e); return self.load_or_obj(loc, e['a'].get('t'))
    def lv_casgn(self, e):
        b = self.sc(e['b']); loc = self.lv(e['a'])
        a = self.load(loc, e['a'].get('t'))
        self.store(loc, self.fit(self.arith(e['op'], a, b, {'flt': 'double' in (e['a'].get('t') or '') or 'float' in (e['a'].get('t') or '')}), e['a']))
        return loc
    def ev_casgn(self, e): return self.load(self.lv_casgn(e))
    NARROW = {'unsigned char': (8, 0), 'signed char': (8, 1), 'char': (8, 1), 'short': (16, 1), 'unsigned short': (16, 0)}
    def fit(self, v, a):
        """what is left of a value in a narrow integer"""
        w = self.NARROW.get(norm_t(a.get('t') or ''))
        if w is None: return v
        if isinstance(v, int):
            b, s = w; v &= (1 << b) - 1
            return v - (1 << b) if s and v >> (b - 1) else v
        return mk('tr', norm_t(a['t']), v) if isinstance(v, T) and v.op == 'lin' else v
    def ev_cond(self, e):
        return self.eval(e['a']) if self.cond(e['c']) else self.eval(e['b'])
    def lv_cond(self, e):
        return self.lv(e['a']) if self.cond(e['c']) else self.lv(e['b'])
    def ev_tobool(self, e): return int(self.cond(e))
    def ev_icast(self, e):
        v = self.eval(e['a'])
        if isinstance(v, int):
            if e.get('s2u') and v < 0:
                bits = {'unsigned int': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned char': 8, 'unsigned long long': 64}.get(norm_t(e['t']))
                if bits: return v & ((1 << bits) - 1)
            return v
        if e.get('trunc') and norm_t(e['t']) in ('unsigned char', 'signed char', 'char', 'short', 'unsigned short'):
            return mk('tr', norm_t(e['t']), v)
        return v
    def ev_cast(self, e):
        ck = e['ck']
        if ck in ('IntegralToFloating', 'FloatingCast'): return self.eval(e['a'])
        if ck == 'FloatingToIntegral': 
            v = self.eval(e['a']); return v if isinstance(v, int) else mk('f2i', v)
        v = self.eval(e['a'])
        if ck in ('LValueBitCast',): return v
        if isinstance(v, T) and ck in ('BitCast', 'IntegralToPointer', 'Dynamic'):
            mark_ptr(v)
            v = self.recast(v, e)
        return v
    def recast(self, v, e):
        ps, pf = e.get('ps') or 0, e.get('pf') or 0
        if pf == 1 and ps > 1:
            # a whole number of elements away
            if v.op == 'lin' and len(v.args[1]) == 1 and v.args[1][0][1] == 1 and isinstance(v.args[0], int) and v.args[0] % ps == 0 and abs(v.args[0]) == ps:
                r, pp = toloc(v.args[1][0][0]); return mkptr(r, pp + (('[', v.args[0] // ps),))
            if v.op == 'ptr' and v.args[1] and v.args[1][-1][0] == '[' and isinstance(v.args[1][-1][1], int) and abs(v.args[1][-1][1]) == ps:
                return mkptr(v.args[0], v.args[1][:-1] + (('[', v.args[1][-1][1] // ps),))
        if pf == 0 and ps > 1 and v.op == 'lin' and len(v.args[1]) == 1 and v.args[1][0][1] == 1 and isinstance(v.args[0], int) and v.args[1][0][0].op == 'res' and re.search(r'\*( const)? ?\*( const)?$', e.get('t', '')):
            return rcat(v, ps, 0)      # (raw memory, seen as pointers)
        if v.op == 'ptr' and v.args[1] and v.args[1][-1][0] == '[' and ps and pf and ps != pf:
            return mk('rc', v, ps)
        if v.op == 'lin' and ps and pf and ps != pf: return mk('rc', v, ps)
        if v.op == 'rc' and pf and ps and isinstance(v.args[0], T) and ps == 1: return v
        return v
    def lv_cast(self, e):
        if e['ck'] == 'LValueBitCast':
            loc = self.lv(e['a']); return toloc(mk('rc', locptr(loc), e.get('ps', 0)))
        loc = self.lv(e['a'])
        return loc
    def ev_void(self, e): self.discard(e['a']); return 0
    def discard(self, e):
        if e['k'] in ('call', 'tmp', 'full', 'ctor') and not e.get('lv'):
            t = self.expr_t(e)
            if t and t != 'void' and self.is_class(t):
                self.materialise(e); return
        self.eval(e)
    def ev_full(self, e):
        self.temps.append([])
        try:
            v = self.eval(e['a'])
            if isinstance(v, Obj) and v.tmp: pass
        except BaseException:
            self.end_temps(); raise
        self.end_temps()
        return v
    def lv_full(self, e):
        # lifetime of temporaries is extended by the caller (reference binding) when needed
        self.temps.append([])
        try: l = self.lv(e['a'])
        except BaseException:
            self.end_temps(); raise
        ts = self.temps.pop(); self.temps[-1].extend(ts) if self.temps else None
        return l
    def end_temps(self):
        ts = self.temps.pop()
        for loc, t in reversed(ts): self.destroy(loc, t)
    def ev_tmp(self, e):
        r = self.fresh(norm_t(e['cls']))
        self.eval_into(e['a'], (r, ()))
        t = self.expr_t(e)
        self.temps[-1].append(((r, ()), t))
        return Obj((r, ()), norm_t(t), True)
    def ev_zero(self, e):
        if self.is_class(e['t']):
            r = self.fresh(); self.zero_init((r, ()), e['t']); return Obj((r, ()), norm_t(e['t']), True)
        return 0
    def zero_init(self, loc, t):
        k = self.kind(t)
        if k == 'rec':
            for f, ft in self.rec_fields(self.rec(t)):
                if ft and self.is_class(ft): self.zero_init(self.fld(loc, f), ft)
                else: self.setf(loc, f, 0)
        elif k == 'std': self.std_default(loc, t)
        elif k == 'array':
            self.havoc(loc, mk('rep', 0))
        else: self.store(loc, 0)
    def ev_fn(self, e):
        return mk('fn', e['fn']['u'], e['fn']['q'])
    def lv_fn(self, e): return (mk('fn', e['fn']['u'], e['fn']['q']), ())
    def ev_memptr(self, e): return mk('memptr', e['q'])
    def ev_ref(self, e): return mk('ref', e['q'])
    def ev_typeid(self, e): return mk('typeid', e['t'])
    def lv_typeid(self, e): return (mk('typeid', e['t']), ())
    def ev_stdinit(self, e):
        # initializer_list over a temporary array
        loc = self.lv(e['a'])
        n = len(e['a'].get('args', [])) if e['a']['k'] == 'init' else unk('ilist')
        r = self.fresh('std::initializer_list<')
        self.setf((r, ()), '#p', locptr(loc)); self.setf((r, ()), '#n', n)
        return Obj((r, ()), norm_t(e.get('t') or 'std::initializer_list<?>'), True)
    def ev_lambda(self, e):
        caps = {}
        f = self.frames[-1]
        for c in e['caps']:
            if 'd' not in c: continue
            if 'init' in c:
                r = self.fresh(); self.eval_into(c['init'], (r, ())); caps[c['d']] = (r, ()); continue
            loc = f.env.get(c['d'])
            if loc is None: continue
            if c['ref']: caps[c['d']] = loc
            else:
                r = self.fresh()
                if loc in self.S.cells: self.store((r, ()), self.load(loc))
                else: self.copy_obj(loc, (r, ()), c.get('t') or self.S.cls.get(loc[0]))
                caps[c['d']] = (r, ())
        return Clo(e, caps, f.this)
    def ev_throw(self, e):
        if e.get('a') is None:
            cur = getattr(self, 'curexc', None)
            if cur: raise cur[-1]
            raise CxxThrow('?rethrow')
        v = None
        try: v = self.eval(e['a'])
        except Give: pass
        raise CxxThrow(norm_t(e['t']), None)
    def ev_new(self, e):
        t = norm_t(e['t'])
        pl = e.get('pl') or []
        if pl and not (len(pl) == 1 and pl[0].get('k') == 'glob' and 'nothrow' in pl[0].get('q', '')):
            p = self.eval(pl[0])
            loc = toloc(p)
            if isinstance(p, T): _state.NONNULL.add(p)
        else:
            key = ('new', t); n = self.S.cnt.get(key, 0); self.S.cnt[key] = n + 1
            p = mk('new', t, n); loc = (p, ())
            self.S.trace.append(('new', t, ()))
        if e.get('arr'):
            self.S.trace.append(('newarr', t, (self.eval(e['arr']),)))
        if e.get('init'):
            try: self.eval_into(e['init'], loc)
            except CxxThrow:
                if not pl: self.S.trace.append(('delete', t, (p,)))
                raise
        elif self.kind(t) == 'std': self.std_default(loc, t)
        if isinstance(p, T): self.S.cls.setdefault(p, t) if p.op == 'new' else None
        return p
    def ev_delete(self, e):
        p = self.eval(e['a'])
        if isinstance(p, int) and p == 0: return 0
        if not self.truth(p): return 0
        loc = toloc(p)
        t = e.get('cls') or e['t']
        if 'dtor' in e: self.run_dtor(loc, e['dtor'], t)
        self.S.trace.append(('delete', norm_t(e['t']), (self.cval(p),)))
        self.kill(loc)
        return 0
    def kill(self, loc):
        if isinstance(loc[0], T) and loc[0].op == 'new': self.S.dead.add(loc[0])
    def ev_pseudodtor(self, e): return 0
    def ev_stmtexpr(self, e): self.stmt(e['s']); return 0
    def ev_init(self, e):
        t = norm_t(e['t'])
        if not self.is_class(t):
            return self.eval(e['args'][0]) if e['args'] else 0
        r = self.fresh(t); self.init_list(e, (r, ()))
        return Obj((r, ()), t, True)
    lv_init = lambda self, e: self.materialise(e)
    def init_list(self, e, loc):
        t = norm_t(e['t'])
        if t.endswith(']'):
            self.havoc(loc, mk('rep', 0))
            for i, a in enumerate(e['args']):
                self.eval_into(a, toloc(padd(locptr(loc), i)))
            return
        if 'fs' in e:
            fs = e['fs']
            for f, a in zip(fs, e['args']):
                if f.startswith('base:'): self.eval_into(a, loc)
                else: self.init_field(loc, f, a, self.field_is_ref(t, f))
            return
        if e['args']: self.eval_into(e['args'][0], loc)
    def field_is_ref(self, t, f):
        r = self.rec(t)
        if r:
            for x in r['fs']:
                if x['n'] == f: return x['t'].endswith('&')
        return False
    def init_field(self, loc, f, a, isref):
        d = self.fld(loc, f)
        if isref: self.store(d, locptr(self.lv(a)))
        else: self.eval_into(a, d)
    def eval_into(self, e, loc, temp=False):
        """initialise loc with expression e (prvalue semantics)"""
        k = e['k']
        if k == 'full':
            self.temps.append([])
            try: self.eval_into(e['a'], loc)
            except BaseException:
                self.end_temps(); raise
            self.end_temps(); return
        if k == 'tmp':
            self.eval_into(e['a'], loc)
            if temp: self.temps[-1].append((loc, self.expr_t(e)))
            return
        if k == 'init': return self.init_list(e, loc)
        if k == 'ctor': return self.construct(e, loc)
        if k == 'zero': return self.zero_init(loc, e['t'])
        if k == 'cond' and not e.get('lv'):
            return self.eval_into(e['a'] if self.cond(e['c']) else e['b'], loc)
        if k == 'call' and not e.get('lv'):
            r = self.call(e, loc)
            if r is not None: self.put(loc, r, self.expr_t(e))
            return
        if k == 'inhctor': return
        v = self.eval(e)
        self.put(loc, v, e.get('t'))
    def put(self, loc, v, t):
        if isinstance(v, Obj):
            if v.loc != loc: self.copy_obj(v.loc, loc, v.cls or t)
        else: self.store(loc, v)

    # ------------------------------------------------------------ construction and destruction
    def construct(self, e, loc):
        fn = e['fn']; t = norm_t(e['cls'])
        if not loc[1] and isinstance(loc[0], T) and loc[0].op in ('loc', 'new') and loc[0] not in self.S.cls: self.S.cls[loc[0]] = t
        args = e['args']
        f = self.P.fns.get(fn['u'])
        if e.get('triv') and e.get('cm') or (e.get('elide') and args and args[0]['k'] in ('tmp', 'call', 'ctor') and not args[0].get('lv')):
            a = args[0]
            if not a.get('lv') and a['k'] in ('tmp', 'call', 'ctor', 'init', 'full'): return self.eval_into(a, loc)
            v = self.eval(a)
            return self.put(loc, v, t)
        if ITER_PAT.match(t) or (std_fields(t) is not None) or t.startswith('std::') or t.startswith('__gnu_cxx'):
            return self.std_ctor(e, t, loc)
        if e.get('triv') and e.get('dc'):
            return
        if f is not None and ('body' in f or 'inits' in f) and not self.is_opaque(f):
            return self.inline(f, self.args_of(e, f), loc, None, e)
        if e.get('cm') and not self.is_opaque(fn) and f is None and t in self.P.recs and fn.get('defaulted'):
            self.copy_obj(self.lv(args[0]), loc, t, e['cm'] == 'move'); return
        # opaque constructor
        pm = e.get('pm') or fn.get('pm')
        if pm is None and f is not None: pm = [(1 if p['t'].startswith('const ') else 2) if p.get('ref') else 0 for p in f['ps']]
        vals, hv = self.opaque_args(dict(e, pm=pm) if pm else e, fn)
        locs = self.arglocs
        q = fn['q']
        r = self.event(q, tuple(vals), not fn.get('ne') and not e.get('triv'), hv, kind='ctor')
        self.havoc(loc, mk('obj', r))
        for n, i in self.ref_members(f): 
            if i in locs: self.store(self.fld(loc, n), locptr(locs[i]))
    def ref_members(self, f, depth=0):
        """members of reference type which a constructor binds to what its own reference parameters name: (member, parameter)"""
        out = []
        if f is None or depth > 3: return out
        ps = {p['d']: i for i, p in enumerate(f['ps']) if p.get('ref')}
        for i in f.get('inits') or ():
            x = i.get('e') or {}
            if i.get('deleg'):
                if x.get('k') != 'ctor': continue
                g = self.P.fns.get(x['fn']['u'])
                for n, j in self.ref_members(g, depth + 1):
                    a = x['args'][j] if j < len(x['args']) else {}
                    if a.get('k') == 'var' and a.get('d') in ps: out.append((n, ps[a['d']]))
            elif i.get('isref') and x.get('k') == 'var' and x.get('d') in ps: out.append((i['f'], ps[x['d']]))
        return out
    def is_opaque(self, f):
        u = f['u']
        if u == self.topu: return False
        q = f['q']
        if '_hist_' in (self.topq or ''): return False   # a history: everything it does is followed
        m = self.opaque.match(q)
        if m:
            # a domain method calling itself/impl from inside the domain stays transparent
            if q.startswith('dynamix::domain::') and self.in_class('dynamix::domain'): return False
            if q.startswith('dynamix::object_mutation::') and self.in_class('dynamix::object_mutation'): return q.endswith('default_construct_each_new_mixin') and self.topq.startswith('drv')
            return True
        if q == 'dynamix::object_mutation::object_mutation' and not self.in_class('dynamix::object_mutation'): return True
        return False
    def in_class(self, c):
        for f in self.frames[-1:]:
            if f.fn['q'].startswith(c + '::'): return True
        return False
    def args_of(self, e, f):
        """bind arguments: list of ('ref', loc) / ('val', value) / ('into', loc)"""
        out = []
        args = e.get('args', [])
        ps = f['ps']
        for i, p in enumerate(ps):
            if i >= len(args): break
            a = args[i]
            if p.get('ref'): out.append(self.lv_ext(a))
            else:
                t = p['t']
                if self.is_class(t) and not norm_t(t).endswith('*'):
                    r = self.fresh(norm_t(t)); self.eval_into(a, (r, ())); out.append((r, ()))
                    self.temps[-1].append(((r, ()), norm_t(t)))
                else:
                    v = self.eval(a)
                    r = self.fresh(); self.store((r, ()), v) if not isinstance(v, Obj) else self.copy_obj(v.loc, (r, ()), v.cls); out.append((r, ()))
        return out
    def lv_ext(self, a):
        return self.lv(a)
    def inline(self, f, argl, this, retloc, e):
        if self.callstack.count(f['u']) >= 2: raise Give('recursion in ' + f['q'])
        if len(self.callstack) > 60: raise Give('call depth')
        self.callstack.append(f['u'])
        self.inl.add(f['u'])
        fr = Frame(f, this)
        for p, l in zip(f['ps'], argl): fr.env[p['d']] = l
        for p, l in zip(f['ps'], argl):
            if l is not None: self.sv_inv(p['t'], l)
        if this is not None and f.get('cls') == 'dnmx_sv' and f.get('kind') != 'ctor': self.sv_inv('dnmx_sv', this)
        self.frames.append(fr)
        nt = len(self.temps)
        self.temps.append([])
        fr.ret = retloc
        try:
            try:
                self.run_body(f, fr)
                val = None
            except Ret as r: val = r.val
            except CxxThrow as t:
                if f.get('ne'): raise Terminate('exception leaves noexcept ' + f['q'])
                raise
        finally:
            self.frames.pop(); self.callstack.pop()
            del self.temps[nt:]
        return val
    SVT = re.compile(r'^(const )?((struct )?dnmx_sv|std::(string_view|basic_string_view<.*>))( ?&)?$')
    def sv_inv(self, t, loc):
        """well-formed string views: begin <= end, and a null begin means null end"""
        if not self.SVT.match(t): return
        sv = 'dnmx_sv' in t
        if isinstance(loc[0], T) and loc[0].op == 'abs': return
        b = self.load((loc[0], loc[1] + (('.', 'begin' if sv else '#p'),)), 'const char *')
        e = self.load((loc[0], loc[1] + (('.', 'end' if sv else '#l'),)), 'const char *' if sv else 'unsigned long')
        if not isinstance(b, T) or b.taint or (isinstance(e, T) and e.taint) or b.op == 'undef':
            if b == 0 and isinstance(e, T) and e.op != 'undef' and not e.taint: self.assume(e, ((0, 0),))
            return
        if isinstance(e, T) and e.op == 'undef': return
        if sv:
            d = sub(e, b)
            if isinstance(d, T) and d.op == 'lin' and (leafish(b) or leafish(e)): self.assume(d, ((0, INF),))
        if leafish(b) and isinstance(e, T): self.S.svp[b] = e
    def run_body(self, f, fr):
        if f.get('kind') == 'ctor' and 'inits' in f: 
            self.run_inits(f, fr)
        if 'body' in f:
            try: self.stmt(f['body'])
            except CxxThrow:
                if f.get('kind') == 'ctor': self.unwind_members(f, fr)
                raise
            except Ret:
                if f.get('kind') == 'dtor': self.member_dtors(f, fr)
                raise
        if f.get('kind') == 'dtor': self.member_dtors(f, fr)
    def run_inits(self, f, fr):
        done = []
        for i in f['inits']:
            try:
                if i.get('deleg') or 'base' in i:
                    self.eval_into(i['e'], fr.this) if i['e'] and i['e']['k'] != 'inhctor' else self.inh(i, f, fr)
                elif i['e'] is None: pass
                else: self.init_field(fr.this, i['f'], i['e'], i.get('isref'))
                done.append(i)
            except CxxThrow:
                for j in reversed(done):
                    if 'f' in j:
                        ft = self.ftype(f['cls'], j['f'])
                        if ft: self.destroy(self.fld(fr.this, j['f']), ft)
                raise
            self.flush_temps()
    def flush_temps(self):
        ts = self.temps[-1]
        while ts:
            loc, t = ts.pop(); self.destroy(loc, t)
    def inh(self, i, f, fr):
        if i['e'] and 'fn' in i['e']:
            g = self.P.fns.get(i['e']['fn']['u'])
            if g: self.inline(g, [fr.env[p['d']] for p in f['ps']], fr.this, None, None)
    def ftype(self, cls, f):
        r = self.rec(cls)
        if r:
            for x in r['fs']:
                if x['n'] == f: return x['t']
        return None
    def unwind_members(self, f, fr):
        self.inflight = getattr(self, 'inflight', 0) + 1
        try: self.unwind_members_(f, fr)
        finally: self.inflight -= 1
    def unwind_members_(self, f, fr):
        deleg = any(i.get('deleg') for i in f.get('inits', []))
        if deleg:
            # fully constructed by the delegated constructor: destructor runs
            d = self.find_dtor(f['cls'])
            if d: self.run_dtor(fr.this, d, f['cls'])
            return
        r = self.rec(f['cls'])
        if r:
            for x in reversed(r['fs']): self.destroy(self.fld(fr.this, x['n']), x['t'])
    def member_dtors(self, f, fr):
        r = self.rec(f['cls'])
        if not r: return
        for x in reversed(r['fs']):
            if x['n'] and not x['t'].endswith('&'): self.destroy(self.fld(fr.this, x['n']), x['t'])
        for b in reversed(r['bs']): self.destroy(fr.this, b['t'])
    def find_dtor(self, cls):
        r = self.rec(cls)
        if not r: return None
        for m in r['ms']:
            if m.get('sm') == 'dtor':
                return {'u': m['u'], 'q': r['q'] + '::~' + r['q'].split('::')[-1], 'cls': r['q'], 'user': m.get('user')}
        return None
    def destroy(self, loc, t):
        t = norm_t(t or '')
        k = self.kind(t)
        if k == 'std': return self.std_dtor(loc, t)
        if k == 'rec':
            r = self.rec(t)
            if r.get('trivdtor'): return
            d = self.find_dtor(t)
            if d: self.run_dtor(loc, d, t)
            else:
                for x in reversed(r['fs']):
                    if not x['t'].endswith('&'): self.destroy(self.fld(loc, x['n']), x['t'])
    def run_dtor(self, loc, d, t):
        f = self.P.fns.get(d['u'])
        r = self.rec(t)
        if f is not None and 'body' in f and not self.is_opaque(f):
            self.inline(f, [], loc, None, None); return
        if f is None or 'body' not in f or self.is_opaque(f):
            m = None
            if r: m = next((m for m in r['ms'] if m.get('sm') == 'dtor'), None)
            if r and r.get('trivdtor'): return
            if (m and m.get('user')) or (f is not None and self.is_opaque(f)):
                ne = not (f and not f.get('ne', True)) and d.get('ne', True) if f else True
                thr = f is not None and not f.get('ne') and not getattr(self, 'inflight', 0)
                self.event('~' + norm_t(t), (self.cval(locptr(loc)),), thr, (), kind='dtor')
                return
            if r:
                for x in reversed(r['fs']):
                    if not x['t'].endswith('&'): self.destroy(self.fld(loc, x['n']), x['t'])
                for b in reversed(r['bs']): self.destroy(loc, b['t'])

    # ------------------------------------------------------------ calls
    def ev_ctor(self, e):
        t = norm_t(e['cls'])
        if ITER_PAT.match(t): return self.std_ctor(e, t, None)
        r = self.fresh(t); self.construct(e, (r, ())); return Obj((r, ()), t, True)
    def ev_call(self, e):
        v = self.call(e, None)
        return v
    def lv_call(self, e):
        v = self.call(e, None)
        if isinstance(v, Obj): return v.loc
        if v is None: raise Give('void call as lvalue ' + str(e.get('fn', {}).get('q')))
        return toloc(v)          # references are represented by addresses
    def call(self, e, into):
        """value of the call (address for reference results); class results are built at `into` when given"""
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise Give('step limit')
        if 'fn' in e:
            fn = e['fn']; u = fn['u']; q = fn['q']
            if q == 'dmx_assert_': return self.asserted(e)
            if q.startswith(('std::', '__gnu_cxx::', 'operator')) and not (fn.get('cls') or '').endswith('(anonymous class)'):
                r = self.std_call(e, fn, into)
                if r is not NotImplemented: return self.wrap_ret(r, e, into)
            f = self.P.fns.get(u)
            if fn.get('virt') and not e.get('qual'):
                f = self.devirt(e, fn, f)
                if f is None: return self.opaque_call(e, fn, into)
            if q.endswith('operator()') and ('(anonymous class)' in (fn.get('cls') or '') or '(lambda' in (fn.get('cls') or '')):
                c = self.closure_of(self.eval(e['obj']))
                if c is not None: return self.call_clo(c, e, into, fn)
            if fn.get('conv') and '(anonymous class)' in (fn.get('cls') or ''):
                c = self.closure_of(self.eval(e['obj']))
                if c is not None: return self.lambda_fn(c)
            if fn.get('noret') and q.startswith('dynamix::throw_exception::'):
                cls = self.throws_class(f, fn)
                for a in e.get('args', []): pass
                raise CxxThrow(cls)
            if f is not None and 'body' in f and not self.is_opaque(f):
                return self.call_fn(f, e, into)
            if q in ('std::move', 'std::forward'): pass
            r = self.builtin(e, fn, into)
            if r is not NotImplemented: return self.wrap_ret(r, e, into)
            if fn.get('defaulted') and f is None and fn.get('n', '').startswith('~'):
                self.destroy(self.objloc(e), fn['cls']); return None
            return self.opaque_call(e, fn, into)
        # indirect
        c = self.eval(e['callee'])
        if isinstance(c, Obj): c = self.load(c.loc)
        cl = self.closure_of(c)
        if cl is not None: return self.call_clo(cl, e, into, None)
        if isinstance(c, T) and c.op == 'fn':
            f = self.P.fns.get(c.args[0])
            if f is not None and 'body' in f and not self.is_opaque(f): return self.call_fn(f, e, into)
            if c.op == 'fn':
                r = self.builtin(e, {'q': c.args[1], 'u': c.args[0], 'n': c.args[1].split('::')[-1]}, into)
                if r is not NotImplemented: return self.wrap_ret(r, e, into)
        vals, hv = self.opaque_args(e, e)
        c = self.norm(c)
        if isinstance(c, int):
            if c == 0: raise UB('call of a null function')
        r = self.event('callback', (self.cval(c),) + tuple(vals), not e.get('ne'), hv, kind='cb', rt=e.get('t'))
        return self.wrap_ret(r, e, into)
    assuming = False
    confirmed = False; sized = False
    def overrun(self, why):
        """access beyond a container: undefined behaviour when the confirmed instance has determined all sizes (and
        has come to its end from there), else taken for excluded by an invariant"""
        if self.confirmed and not self.sized: raise UB(why)
        raise Dead()
    def asserted(self, e):
        """an asserted precondition: assumed of the confirmed instance, ignored elsewhere"""
        if not self.assuming: return None
        S = self.S; n = len(S.trace); cnt = dict(S.cnt)
        try: ok = self.cond(e['args'][0])
        except (Give, CxxThrow): ok = True
        del self.S.trace[n:]; self.S.cnt = cnt
        if not ok: raise Dead()
        return None
    def wrap_ret(self, r, e, into):
        if into is not None and r is not None:
            self.put(into, r, e.get('t')); return None
        return r
    def throws_class(self, f, fn):
        if f and 'body' in f:
            st = [f['body']]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get('k') == 'throw' and x.get('t'): return norm_t(x['t'])
                    st.extend(x.values())
                elif isinstance(x, list): st.extend(x)
            # forwards to another thrower
            st = [f['body']]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get('k') == 'call' and x.get('fn', {}).get('noret'): return self.throws_class(self.P.fns.get(x['fn']['u']), x['fn'])
                    st.extend(x.values())
                elif isinstance(x, list): st.extend(x)
        return '?' + fn['q']
    def devirt(self, e, fn, f):
        loc = self.objloc(e)
        cls = self.S.cls.get(loc[0]) if not loc[1] or loc[1] == () else None
        if cls is None: return None
        seen = []
        st = [cls]
        while st:
            c = st.pop(0); r = self.rec(c)
            if not r: continue
            for m in r['ms']:
                if m['n'] == fn['n']:
                    g = self.P.fns.get(m['u'])
                    if g and 'body' in g: return g
            st.extend(b['t'] for b in r['bs'])
        return None
    def closure_of(self, v):
        if isinstance(v, Clo): return v
        if isinstance(v, Obj): v = self.load(v.loc)
        if isinstance(v, T) and v.op == 'clos': return self.CLOS.get(v)
        return None
    def lambda_fn(self, c):
        if 'fn' not in c.node: return unk('generic lambda to pointer')
        f = c.node['fn']
        self.P.fns.setdefault(f['u'], f)
        return mk('fn', f['u'], 'lambda')
    def pick(self, c, fn, nargs):
        if 'fn' in c.node: return c.node['fn']
        ins = c.node.get('insts', [])
        if fn:
            for f in ins:
                if f['u'] == fn['u']: return f
        for f in ins:
            if len(f['ps']) == nargs: return f
        raise Give('generic lambda instance')
    def call_clo(self, c, e, into, fn):
        f = self.pick(c, fn, len(e.get('args', [])))
        argl = self.args_of(e, f)
        return self.finish_call(f, argl, c.this, into, e, c.caps)
    def invoke(self, c, locs):
        """call a callable value with argument locations (from library algorithms)"""
        if isinstance(c, Obj):
            cl = self.closure_of(c) if c.loc in self.S.cells else None
            if cl is None:
                cls = c.cls or self.S.cls.get(c.loc[0])
                if norm_t(cls or '').startswith('std::function<'): c = self.getf(c.loc, '#f')
                else:
                    r = self.rec(cls) if cls else None
                    if r:
                        ms = [m for m in r['ms'] if m['n'] == 'operator()']
                        for m in ms:
                            g = self.P.fns.get(m['u'])
                            if g and 'body' in g and len(g['ps']) == len(locs): return self.finish_call(g, self.bind_locs(g, locs), c.loc, None, None)
                        if ms:
                            rr = self.event(r['q'] + '::operator()', (self.cval(locptr(c.loc)),) + tuple(self.cval(locptr(l)) for l in locs), True, (), kind='cb'); return rr
                    if '(lambda' in (cls or '') or '(anonymous class)' in (cls or ''):
                        return self.event('lambda', (self.cval(locptr(c.loc)),) + tuple(self.cval(locptr(l)) for l in locs), True, (), kind='cb')
                    raise Give('callable object %s' % cls)
            else: c = cl
        cl = self.closure_of(c)
        if cl is not None:
            f = self.pick(cl, None, len(locs))
            return self.finish_call(f, self.bind_locs(f, locs), cl.this, None, None, cl.caps)
        if isinstance(c, T) and c.op == 'fn':
            f = self.P.fns.get(c.args[0])
            if f and 'body' in f: return self.finish_call(f, self.bind_locs(f, locs), None, None, None)
        return self.event('callback', (self.cval(c),) + tuple(self.cval(locptr(l)) for l in locs), True, (), kind='cb')
    def bind_locs(self, f, locs):
        out = []
        for p, l in zip(f['ps'], locs):
            if p.get('ref'): out.append(l)
            else:
                r = self.fresh()
                if self.is_class(p['t']): self.copy_obj(l, (r, ()), p['t'])
                else: self.store((r, ()), self.load(l, p['t']))
                out.append((r, ()))
        return out
    def call_fn(self, f, e, into):
        this = None
        if 'obj' in e: this = self.objloc(e)
        elif f.get('cls') and not f.get('static') and e.get('k') == 'call' and 'obj' not in e: this = None
        argl = self.args_of(e, f)
        return self.finish_call(f, argl, this, into, e)
    def objloc(self, e):
        o = e['obj']
        if e.get('arrow'):
            v = self.eval(o)
            if isinstance(v, Obj): return v.loc
            return toloc(v)
        return self.lv(o)
    def finish_call(self, f, argl, this, into, e, caps=None):
        t = norm_t(f['ret']) if not f['ret'].endswith('&') else None
        retloc = into
        iscls = t is not None and t != 'void' and self.is_class(t)
        if iscls and into is None:
            r = self.fresh(t); retloc = (r, ())
        if caps is not None:
            return self.inline_clo(f, argl, this, retloc if iscls else None, e, caps, iscls, into, t)
        v = self.inline(f, argl, this, retloc if iscls else None, e)
        return self.ret_value(v, iscls, into, retloc, t)
    def ret_value(self, v, iscls, into, retloc, t):
        if iscls:
            if v is not None and v != 'placed': self.put(retloc, v, t)
            return None if into is not None else Obj(retloc, t, True)
        if into is not None and v is not None:
            self.put(into, v, t); return None
        return v
    def inline_clo(self, f, argl, this, retloc, e, caps, iscls, into, t):
        if self.callstack.count(f['u']) >= 2: raise Give('recursion in lambda')
        self.callstack.append(f['u'])
        fr = Frame(f, this); fr.env.update(caps)
        for p, l in zip(f['ps'], argl): fr.env[p['d']] = l
        fr.ret = retloc
        self.frames.append(fr); nt = len(self.temps); self.temps.append([])
        val = None
        try:
            try: self.stmt(f['body'])
            except Ret as r: val = r.val
            except CxxThrow:
                if f.get('ne'): raise Terminate('exception leaves noexcept lambda')
                raise
        finally:
            self.frames.pop(); self.callstack.pop(); del self.temps[nt:]
        return self.ret_value(val, iscls, into, retloc, t)
    def opaque_args(self, e, fn):
        vals = []; hv = []; locs = {}
        pm = e.get('pm') or fn.get('pm') or []
        for i, a in enumerate(e.get('args', [])):
            m = pm[i] if i < len(pm) else 0
            if m in (1, 2):
                loc = self.lv(a)
                vals.append(self.cval(locptr(loc)))
                if m == 2: hv.append(loc)
                locs[i] = loc
            else:
                v = self.eval(a)
                if isinstance(v, Clo): vals.append(self.cval(v)); continue
                if isinstance(v, Obj):
                    if isinstance(v.loc[0], T) and v.loc[0].op == 'loc': vals.append(self.snap(v.loc))
                    else: vals.append(mk('obj', locptr(v.loc)))
                    continue
                vals.append(self.cval(v))
                if m == 4 and isinstance(v, T) and v.op != 'str':
                    hv.append(toloc(v))
        self.arglocs = locs
        return vals, hv
    NOHAVOC = re.compile(r'^dynamix::domain::')
    REFLIB = None
    def opaque_call(self, e, fn, into):
        q = fn['q']
        if self.REFLIB is not None and q not in self.REFLIB and (q.startswith(('std::', '__gnu_cxx::')) or ('::' not in q and not q.startswith(('dnmx_', '_dnmx')))):
            f = self.P.fns.get(fn['u'])
            if f is None or not ('body' in f or 'inits' in f): raise Give('library function without a model: ' + q)
        if q in ('std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy', '__builtin_memmove'): q = 'memcpy'
        if q in ('std::memset', '__builtin_memset'): q = 'memset'
        obj = []
        hv0 = []
        if 'obj' in e:
            loc = self.objloc(e); obj = [self.cval(locptr(loc))]
            if not fn.get('const') and not self.NOHAVOC.match(q): hv0 = [loc]
        vals, hv = self.opaque_args(e, fn)
        pure = q in PURE_OPAQUE
        ne = fn.get('ne') or q in NOTHROW_C
        if pure and q.startswith(('dynamix::', '_dynamix')): ne = ne or True
        f = self.P.fns.get(fn['u'])
        rt = e.get('t') or (f['ret'] if f else None)
        r = self.event(q, tuple(obj + vals), not ne, () if pure else hv0 + hv, pure=pure or q in ('memcmp', 'strlen'), rt=rt)
        if fn.get('noret'): raise CxxThrow('?' + q)
        if q in ('memcpy', 'memset', 'memmove'): return vals and self.eval_ptr0(e)
        ret = norm_t(rt or '')
        if e.get('lv'): mark_ptr(r); _state.NONNULL.add(r); return r
        if rt == 'void': return None
        if q.endswith('::alloc_mixin_buf') and isinstance(r, T): mark_ptr(r); _state.NONNULL.add(r)     # reports a failure by throwing
        if ret and self.is_class(ret):
            root = self.fresh(ret); self.S.ver[(root, ())] = mk('obj', r)
            o = Obj((root, ()), ret, True)
            if into is not None: self.copy_obj(o.loc, into, ret); return None
            return o
        return r
    def eval_ptr0(self, e): return self.eval(e['args'][0])
    def builtin(self, e, fn, into):
        q = fn['q']; args = e.get('args', [])
        if q in ('memcmp', 'std::memcmp', '__builtin_memcmp', 'bcmp', 'strncmp', 'std::strncmp', '__builtin_strncmp') and len(args) == 3:
            p, o, l = self.eval(args[0]), self.eval(args[1]), self.eval(args[2])
            r = self.memcmp(p, o, l)
            if not q.endswith('strncmp') or self.decide(r, ((0, 0),)): return r
            # different, though possibly only after a zero which both have
            z = mk('res', 'zero before the difference', tuple(sorted((self.cval(self.norm(p)), self.cval(self.norm(o))), key=dig)) + (self.norm(l),), 0)
            return r if self.decide(z, ((0, 0),)) else 0
        return NotImplemented

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None: return
        m = getattr(self, 'st_' + s['k'], None)
        if m is None: raise Give('statement ' + s['k'])
        return m(s)
    def st_block(self, s):
        fr = self.frames[-1]
        sc = []; fr.scopes.append(sc); nsc = len(fr.scopes)
        try:
            for x in s['s']: self.stmt(x)
        except (CxxThrow, Ret, Brk, Cont) as ex:
            del fr.scopes[nsc:]
            fr.scopes.pop()
            self.end_scope(sc, ex); raise
        except BaseException:
            del fr.scopes[nsc:]; fr.scopes.pop(); raise
        fr.scopes.pop()
        self.end_scope(sc, None)
    def end_scope(self, sc, ex):
        for loc, t in reversed(sc):
            if isinstance(ex, CxxThrow): self.inflight = getattr(self, 'inflight', 0) + 1
            try: self.destroy(loc, t)
            finally:
                if isinstance(ex, CxxThrow): self.inflight -= 1
    def st_expr(self, s):
        self.temps.append([])
        try: self.discard(s['e'])
        except (CxxThrow,) :
            self.end_temps(); raise
        except BaseException:
            self.temps.pop(); raise
        self.end_temps()
    def st_nop(self, s): pass
    def st_decl(self, s):
        for v in s['v']: self.decl(v)
    def decl(self, v):
        fr = self.frames[-1]
        if v.get('static'):
            fr.env[v['d']] = (mk('glob', ('thread:' if v.get('tls') else 'static:') + norm_t(v['t'])), ())
            if not v.get('ref') and 'init' in v:
                i = v['init']
                if i['k'] == 'int': self.S.cells.setdefault(((mk('glob', ('thread:' if v.get('tls') else 'static:') + norm_t(v['t']))), ()), int(i['v']))
                else:
                    loc = (mk('glob', ('thread:' if v.get('tls') else 'static:') + norm_t(v['t'])), ())
                    if self.static_done(v): return
                    self.S.trace.append(('static-init', v['t'], ()))
                    self.static_init(i, loc, v)
            return
        if v.get('binds') is not None: return self.decl_binds(v)
        if v.get('ref'):
            self.temps.append([])
            try: loc = self.lv(v['init'])
            except BaseException:
                self.temps.pop(); raise
            ts = self.temps.pop()
            fr.env[v['d']] = loc
            # lifetime extension
            for x in ts: (fr.scopes[-1] if fr.scopes else []).append(x)
            return
        r = self.fresh(norm_t(v.get('cls') or v['t']) if v.get('cls') else None)
        fr.env[v['d']] = (r, ())
        i = v.get('init')
        if i is not None:
            self.temps.append([])
            try: self.eval_into(i, (r, ()))
            except CxxThrow:
                self.end_temps(); raise
            except BaseException:
                self.temps.pop(); raise
            self.end_temps()
        if v.get('hasdtor') and fr.scopes: fr.scopes[-1].append(((r, ()), v.get('cls') or v['t']))
    def static_done(self, v):
        """whether an earlier call has already made the local static: yes after the first time on a path; unknown before (histories start with none made)"""
        g = ('static', v['d'])
        if self.S.cnt.get(g): return True
        self.S.cnt[g] = 1
        if self.inhist(): return False
        return not self.decide(mk('res', 'static-made', (norm_t(v['t']),), 0), ((0, 0),))
    def static_init(self, i, loc, v):
        try: self.eval_into(i, loc)
        except Give: pass
    def decl_binds(self, v):
        fr = self.frames[-1]
        r = self.fresh()
        if v.get('ref'): base = self.lv(v['init'])
        else:
            self.eval_into(v['init'], (r, ())); base = (r, ())
        fr.env[v['d']] = base
        self.bind_names(v, base)
    def bind_names(self, v, base):
        fr = self.frames[-1]
        for i, b in enumerate(v['binds']):
            if 'a' in b and b['a'] and b['a']['k'] == 'mem':
                fr.env[b['d']] = self.lv(b['a'])
            elif 'hold' in b:
                fr.env[b['d']] = (base[0], base[1] + (('.', ('first', 'second')[i] if 'pair' in v['t'] else '#%d' % i),))
            else: fr.env[b['d']] = (base[0], base[1] + (('.', ('first', 'second')[i] if 'pair' in v['t'] else '#%d' % i),))
    def st_if(self, s):
        fr = self.frames[-1]; sc = []; fr.scopes.append(sc); nsc = len(fr.scopes)
        try:
            if s.get('init'): self.stmt(s['init'])
            if s.get('cv'): self.decl(s['cv'])
            c = self.fullcond(s['c'])
            if c: self.stmt(s['t'])
            elif s.get('f'): self.stmt(s['f'])
        except (CxxThrow, Ret, Brk, Cont) as ex:
            del fr.scopes[nsc:]; fr.scopes.pop(); self.end_scope(sc, ex); raise
        except BaseException:
            del fr.scopes[nsc:]; fr.scopes.pop(); raise
        fr.scopes.pop(); self.end_scope(sc, None)
    def fullcond(self, e):
        self.temps.append([])
        try: r = self.cond(e)
        except CxxThrow:
            self.end_temps(); raise
        except BaseException:
            self.temps.pop(); raise
        self.end_temps()
        return r
    def st_ret(self, s):
        e = s.get('e')
        fr = self.frames[-1]
        if e is None: raise Ret(None)
        f = fr.fn
        self.temps.append([])
        try:
            if f['ret'].endswith('&'): v = locptr(self.lv(e))
            elif fr.ret is not None:
                self.eval_into(e, fr.ret); v = 'placed'
            else:
                v = self.eval(e) if f['ret'] != 'void' else self.discard(e)
        except CxxThrow:
            self.end_temps(); raise
        except BaseException:
            self.temps.pop(); raise
        self.end_temps()
        raise Ret(v)
    def st_break(self, s): raise Brk()
    def st_cont(self, s): raise Cont()
    def st_label(self, s): self.stmt(s['s'])
    def st_switch(self, s):
        if s.get('init'): self.stmt(s['init'])
        if s.get('cv'): self.decl(s['cv'])
        v = self.eval(s['c'])
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        flat = []
        for x in body:
            while x['k'] in ('case', 'default'):
                flat.append((x['k'], x.get('v'), x.get('hi'))); x = x['s']
            flat.append(('stmt', x, None))
        start = None
        for i, (k, a, hi) in enumerate(flat):
            if k == 'case':
                c = self.eval(a)
                if self.cmp('==', v, c): start = i; break
        if start is None:
            for i, (k, a, _) in enumerate(flat):
                if k == 'default': start = i
        if start is None: return
        try:
            for k, a, _ in flat[start:]:
                if k == 'stmt': self.stmt(a)
        except Brk: pass
    def st_try(self, s):
        try: self.stmt(s['b'])
        except CxxThrow as t:
            for h in s['h']:
                if self.catches(h['t'], t):
                    if not hasattr(self, 'curexc'): self.curexc = []
                    self.curexc.append(t)
                    fr = self.frames[-1]
                    if 'v' in h:
                        r = mk('glob', 'exc')
                        fr.env[h['v']['d']] = (r, ())
                    try: self.stmt(h['b'])
                    finally: self.curexc.pop()
                    return
            raise
    def catches(self, ht, t):
        if ht == '...': return True
        ht = norm_t(ht)
        if t.cls.startswith('?'):
            if ht == 'std::exception' and t.cls != '?user' : return True
            return self.decide(mark_uns(mk('isexc', t.val if isinstance(t.val, T) else mk('c', t.cls), ht)), ((1, 1),))
        c = [t.cls]
        while c:
            x = c.pop()
            if x == ht: return True
            r = self.rec(x)
            if r: c.extend(norm_t(b['t']) for b in r['bs'])
            elif x.startswith('std::') and ht == 'std::exception': return True
            elif x == 'std::bad_alloc' and ht == 'std::exception': return True
        return False
    # loops: see loops.py
    def st_while(self, s): return self.loop_stmt(s)
    def st_for(self, s): return self.loop_stmt(s)
    def st_do(self, s): return self.loop_stmt(s)
    def st_rfor(self, s): return self.loop_stmt(s)

LVK = ('var', 'mem', 'glob', 'str', 'bind', 'idx', 'un', 'asgn', 'casgn', 'call', 'cond', 'cast', 'full', 'bin', 'fn', 'typeid')
CMP = {'==': ((0, 0),), '!=': ((-INF, -1), (1, INF)), '<': ((-INF, -1),), '<=': ((-INF, 0),), '>': ((1, INF),), '>=': ((0, INF),)}

def k_trivial_scalar(self, t):
    return not (t and self.is_class(t))

def ptr_root(x):
    if isinstance(x, T):
        if x.op == 'ptr': return x.args[0]
        return x
    return x
def addr_order(a, b):
    """histories are interpreted in one possible layout of the memory: different objects of the driver lie in the order in which they come to be"""
    ra, rb = ptr_root(a), ptr_root(b)
    if ra is rb or not (isinstance(ra, T) and isinstance(rb, T)) or ra.op != rb.op: return None
    if ra.op == 'loc': x, y = ra.args, rb.args
    elif ra.op == 'str': x, y = str(ra.args[0]), str(rb.args[0])
    else: return None
    return -1 if x < y else 1 if x > y else None
def ptr_distinct(a, b, hist=False):
    """definitely different addresses"""
    if a is b: return False
    ra, rb = ptr_root(a), ptr_root(b)
    if isinstance(a, int) and a == 0: return isinstance(rb, T) and (rb.op in ('loc', 'new', 'glob', 'fn', 'str', 'clos') or (isinstance(b, T) and b.op == 'ptr' and any(p[0] == '.' for p in b.args[1])) or rb in NONNULL)
    if isinstance(b, int): return ptr_distinct(b, a) if b == 0 else False
    if not (isinstance(ra, T) and isinstance(rb, T)): return False
    if ra is rb:
        if ra.op not in ('loc', 'new'): return False
        pa = a.args[1] if isinstance(a, T) and a.op == 'ptr' else (); pb = b.args[1] if isinstance(b, T) and b.op == 'ptr' else ()
        for x, y in zip(pa, pb):
            if x == y: continue
            return x[0] == y[0] and (x[0] == '.' or x[0] == '[' and isinstance(x[1], int) and isinstance(y[1], int))
        return False
    for x, y in ((ra, rb), (rb, ra)):
        if hist and x.op == y.op == 'str': return True
        if hist and x.op == y.op == 'res' and x.args[0] == y.args[0] == 'mr.allocate': return True
        if x.op == 'res' and x.args[0] == 'mr.allocate' and y.op in ('loc', 'new', 'glob', 'fn', 'str'): return True
        if x.op in ('loc', 'new') and y.op in ('loc', 'new', 'glob', 'fn', 'str', 'param', 'ini'): return True
        if x.op == 'fn' and y.op == 'fn': return True
    return False

def split_targs(t):
    i = t.find('<')
    if i < 0: return []
    d = 0; out = []; cur = ''
    for c in t[i + 1:]:
        if c in '<([': d += 1
        if c in '>)]':
            if d == 0: break
            d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        cur += c
    out.append(cur.strip())
    return out
