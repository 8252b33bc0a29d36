"""Value numbers: hash-consed terms with a linear normal form, interval path conditions."""
import hashlib

class T:
    __slots__ = ('op', 'args', 'h', 'taint', '_s')
    def __repr__(self): return show(self)

_pool = {}

def _dig(x):
    if isinstance(x, T): return x.h
    if isinstance(x, tuple): return '(' + ','.join(_dig(y) for y in x) + ')'
    if isinstance(x, frozenset): return '{' + ','.join(sorted(_dig(y) for y in x)) + '}'
    return repr(x)

def _taint(x):
    if isinstance(x, T): return x.taint
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            if _taint(y): return True
    return False

def mk(op, *args):
    key = (op, args)
    t = _pool.get(key)
    if t is None:
        t = T()
        t.op = op; t.args = args
        t.h = hashlib.md5((op + '|' + '|'.join(_dig(a) for a in args)).encode()).hexdigest()[:20]
        t.taint = op == 'unk' or any(_taint(a) for a in args)
        t._s = None
        _pool[key] = t
    return t

def unk(why): return mk('unk', why)

def dig(x):
    return _dig(x)

# ------------------------------------------------------------------ linear forms
def lin(x):
    """-> (const, {term: coef})"""
    if isinstance(x, bool): return (int(x), {})
    if isinstance(x, int): return (x, {})
    if isinstance(x, T):
        if x.op == 'lin': return (x.args[0], dict(x.args[1]))
        if x.op == 'ptr':
            root, path = x.args
            if path and path[-1][0] == '[':
                c, d = lin(path[-1][1])
                if len(path) > 1 and path[-2] == ('.', '#c'):
                    b = mk('ptr', root, path[:-1] + (('[', 0),)); cb, db = 0, {b: 1}
                else:
                    b = mkptr(root, path[:-1])
                    cb, db = lin(b) if not (isinstance(b, T) and b.op == 'ptr') else (0, {b: 1})
                for t, k in db.items(): d[t] = d.get(t, 0) + k
                return (c + cb, d)
        return (0, {x: 1})
    raise TypeError(repr(x))

def unlin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d: return c
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
    # pointer + offset
    ps = [t for t, k in d.items() if k == 1 and t.op == 'ptr']
    if len(ps) == 1 and all(t.op != 'ptr' for t in d if t is not ps[0]):
        p = ps[0]; e = dict(d); del e[p]
        return mkptr(p.args[0], p.args[1] + (('[', unlin(c, e)),))
    return mk('lin', c, tuple(sorted(d.items(), key=lambda p: p[0].h)))

def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    ca, da = lin(a); cb, db = lin(b)
    for t, k in db.items(): da[t] = da.get(t, 0) + k
    return unlin(ca + cb, da)

def scale(a, k):
    if isinstance(a, int): return a * k
    if k == 0: return 0
    if k == 1: return a
    c, d = lin(a)
    return unlin(c * k, {t: v * k for t, v in d.items()})

def sub(a, b): return add(a, scale(b, -1))

def mul(a, b):
    if isinstance(a, int): return scale(b, a)
    if isinstance(b, int): return scale(a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'lin':
            r = scale(y, x.args[0])
            for t, k in x.args[1]: r = add(r, scale(mul(t, y), k))
            return r
    for x, y in ((a, b), (b, a)):
        # (a div n) * n = a - a mod n
        if x.op == 'op/' and x.args[1] == y: return sub(x.args[0], mod(x.args[0], y))
    return mk('mul', *sorted((a, b), key=dig))

def divisor_part(a, n):
    """a = r + k * n -> (r, k)"""
    if isinstance(a, int) and isinstance(n, int): return a % n, a // n
    if isinstance(a, int) or (isinstance(a, T) and a.op == 'ptr'): return a, 0
    c, d = lin(a)
    if isinstance(n, int):
        if n <= 1: return a, 0
        k = unlin(c // n, {t: v // n for t, v in d.items()}); r = unlin(c % n, {t: v % n for t, v in d.items()})
        return r, k
    if n in d:
        k = d.pop(n); return unlin(c, d), k
    return a, 0
def div(a, n):
    if n == 1: return a
    if isinstance(n, int) and n <= 0: return mk('op/', a, n)
    r, k = divisor_part(a, n)
    if isinstance(r, int) and isinstance(n, int): return add(r // n, k)
    if r == 0: return k
    return add(_uq(mk('op/', r, n)), k)
def mod(a, n):
    if n == 1: return 0
    if isinstance(n, int) and n <= 0: return mk('op%', a, n)
    r, k = divisor_part(a, n)
    if isinstance(r, int) and isinstance(n, int): return r % n
    if r == 0: return 0
    return _uq(mk('op%', r, n))
def _uq(t): _uns.add(t); return t

# ------------------------------------------------------------------ pointers and locations
# location: (root term, path) with path a tuple of ('.', field) / ('[', index)
def canon_path(path):
    for i, a in enumerate(path):
        if a[0] == '[' and isinstance(a[1], int) and a[1] == 0 and not (i and path[i - 1][1] == '#c'):
            return canon_path(path[:i] + path[i + 1:])
        if a[0] == '[' and i and path[i - 1][0] == '[':
            return canon_path(path[:i - 1] + (('[', add(path[i - 1][1], a[1])),) + path[i + 1:])
    return path


def mkptr(root, path):
    path = canon_path(path)
    if path and path[-1] == ('.', '#c'): path = path + (('[', 0),)
    if not path:
        if isinstance(root, T) and root.op == 'abs': return root.args[0]
        return root
    # offset from an opaque base pointer stays an affine value
    if isinstance(root, T) and root.op == 'ptr':
        return mkptr(root.args[0], root.args[1] + path)
    if isinstance(root, T) and root.op == 'lin':
        return mkptr(*deref_path(root, path))
    return mk('ptr', root, path)

def deref_path(p, path=()):
    r, pp = toloc(p)
    return r, pp + path

def toloc(p):
    """pointer value -> location (root, path)"""
    if isinstance(p, T):
        if p.op == 'ptr': return p.args
        if p.op == 'lin':
            c, d = lin(p)
            # choose the base pointer: the single pointer-ish term with coef 1
            cand = [t for t, k in d.items() if k == 1 and is_ptrlike(t)]
            if not cand: cand = [t for t, k in d.items() if k == 1]
            if cand:
                cand.sort(key=lambda t: t.h)
                b = cand[0]; e = dict(d); del e[b]
                r, pp = toloc(b)
                idx = unlin(c, e)
                if pp and pp[-1][0] == '[':
                    return r, pp[:-1] + (('[', add(pp[-1][1], idx)),)
                return r, pp + (('[', idx),)
        return p, ()
    return mk('abs', p), ()

_ptrlike = set()
def mark_ptr(t):
    if isinstance(t, T) and t.op != 'lin': _ptrlike.add(t)
    return t
def is_ptrlike(t): return t in _ptrlike or t.op in ('ptr', 'loc', 'new', 'param', 'rc', 'glob', 'str', 'fn')

_uns = set()
BOOLT = set()    # terms of type bool: 0 or 1
def mark_uns(t):
    if isinstance(t, T) and t.op != 'lin': _uns.add(t)
    return t

def locptr(loc):
    r, p = loc
    return mkptr(r, p)

def rcat(v, ps, i):
    """the i-th element of size ps from the address v (base + bytes)"""
    b = v.args[1][0][0]; n = v.args[0] + i * ps
    if n == 0: return b
    if abs(n) == ps: return mkptr(b, (('[', n // ps),))
    return mk('rc', add(v, i * ps), ps)

def padd(p, i):
    """pointer + i"""
    if i == 0: return p
    if isinstance(p, int): return add(p, i)
    if p.op == 'rc' and isinstance(i, int) and i < 0 and isinstance(p.args[1], int) and isinstance(p.args[0], T) and p.args[0].op == 'lin' and len(p.args[0].args[1]) == 1 and p.args[0].args[1][0][1] == 1 and isinstance(p.args[0].args[0], int) and p.args[0].args[1][0][0].op == 'res':
        return rcat(p.args[0], p.args[1], i)
    if p.op in ('ptr', 'loc', 'new', 'rc', 'glob', 'str'):
        r, pp = toloc(p)
        if pp and pp[-1][0] == '[': return mkptr(r, pp[:-1] + (('[', add(pp[-1][1], i)),))
        return mkptr(r, pp + (('[', i),))
    if p.op == 'rev': return mk('rev', padd(p.args[0], scale(i, -1)))
    return add(p, i)

MARKS = [_ptrlike, _uns]
# ------------------------------------------------------------------ substitution
def subst(x, f, memo=None):
    """rebuild bottom-up; f(term) returns replacement or None"""
    if memo is None: memo = {}
    if isinstance(x, T):
        r = memo.get(x)
        if r is not None: return r
        r = f(x)
        if r is None:
            na = tuple(subst(a, f, memo) for a in x.args)
            r = x if na == x.args else rebuild(x.op, na)
            if r is not x and isinstance(r, T) and r.op != 'lin':
                for s in MARKS:
                    if x in s: s.add(r)
        memo[x] = r
        return r
    if isinstance(x, tuple): return tuple(subst(y, f, memo) for y in x)
    if isinstance(x, frozenset): return frozenset(subst(y, f, memo) for y in x)
    return x

HOOKS = {}
def rebuild(op, args):
    if op == 'lin':
        r = args[0]
        for t, k in args[1]: r = add(r, scale(t, k))
        return r
    if op == 'ptr':
        r = args[0]
        if isinstance(r, int): r = mk('abs', r)
        rr, pp = toloc(r)
        # merge trailing index of base with leading index
        path = args[1]
        if pp and pp[-1][0] == '[' and path and path[0][0] == '[':
            path = pp[:-1] + (('[', add(pp[-1][1], path[0][1])),) + path[1:]
        else: path = pp + path
        return mkptr(rr, path)
    if op == 'mul': return mul(*args)
    if op == 'op/': return div(*args)
    if op == 'op%': return mod(*args)
    if op == 'ini':
        r = args[0]
        if isinstance(r, int): r = mk('abs', r)
        if isinstance(r, T) and r.op in ('ptr', 'lin'):
            rr, pp = toloc(r); return mk('ini', rr, canon_path(pp + args[1]))
        return mk('ini', r, canon_path(args[1]))
    if op == 'sub': 
        return mk('sub', args[0], canon_path(args[1]))
    h = HOOKS.get(op)
    if h: return h(*args)
    return mk(op, *args)

def depth(x):
    if isinstance(x, T):
        if x._s is None: x._s = 1 + max([depth(a) for a in x.args] or [0])
        return x._s
    if isinstance(x, tuple): return max([depth(a) for a in x] or [0])
    return 0

def contains(x, pred, memo=None):
    if memo is None: memo = {}
    if isinstance(x, T):
        r = memo.get(x)
        if r is None:
            r = pred(x) or any(contains(a, pred, memo) for a in x.args)
            memo[x] = r
        return r
    if isinstance(x, (tuple, frozenset)): return any(contains(y, pred, memo) for y in x)
    return False

def terms_in(x, out, memo=None):
    if memo is None: memo = set()
    if isinstance(x, T):
        if x in memo: return
        memo.add(x); out.add(x)
        for a in x.args: terms_in(a, out, memo)
    elif isinstance(x, (tuple, frozenset)):
        for y in x: terms_in(y, out, memo)

# ------------------------------------------------------------------ interval sets
INF = float('inf')
ALL = ((-INF, INF),)
NONNEG = ((0, INF),)
def iv_and(a, b):
    r = []
    for l1, h1 in a:
        for l2, h2 in b:
            l, h = max(l1, l2), min(h1, h2)
            if l <= h: r.append((l, h))
    return tuple(sorted(r))
def iv_not(a):
    r = []; lo = -INF
    for l, h in a:
        if lo <= l - 1 and l != -INF: r.append((lo, l - 1))
        lo = h + 1
    if lo != INF: r.append((lo, INF))
    return tuple(r)
def iv_neg(a):
    return tuple(sorted((-h, -l) for l, h in a))
def iv_shift(a, k): return tuple((l + k, h + k) for l, h in a)
def iv_or(a, b):
    return iv_not(iv_and(iv_not(a), iv_not(b)))

def norm_lit(d, S):
    """d: term; truth iff d in S.  -> (L canonical without constant, S') or bool"""
    c, m = lin(d)
    if not m:
        return any(l <= c <= h for l, h in S)
    S = iv_shift(S, -c)
    items = sorted(m.items(), key=lambda p: p[0].h)
    g = 0
    from math import gcd
    for _, k in items: g = gcd(g, abs(k))
    if items[0][1] < 0:
        items = [(t, -k) for t, k in items]; S = iv_neg(S)
    if g > 1:
        import math
        items = [(t, k // g) for t, k in items]
        n = []
        for l, h in S:
            l = -INF if l == -INF else math.ceil(l / g); h = INF if h == INF else math.floor(h / g)
            if l <= h: n.append((l, h))
        S = tuple(n)
    L = unlin_raw(items)
    return L, S

def unlin_raw(items):
    if len(items) == 1 and items[0][1] == 1: return items[0][0]
    return mk('lin', 0, tuple(items))

BOOLOPS = {'throws', 'isexc', 'keyeq', 'ex', 'lx', 'mhas', 'streq', 'strless', 'seqeq', 'seqless', 'boolv', 'fcmp', 'which', 'nonnull'}
def default_dom(L):
    if L.op in BOOLOPS or L in BOOLT: return ((0, 1),)
    if L in _uns or L.op in ('slen',): return NONNEG
    if L.op == 'mpos': return ((-1, INF),)
    if L.op == 'ptr' or L.op == 'new' or L.op == 'loc': return ((1, INF),)
    if L in _ptrlike: return NONNEG
    if L.op == 'lin':
        # all coefs and terms nonneg
        if all(k > 0 and default_dom(t)[0][0] >= 0 for t, k in L.args[1]): return NONNEG
        if all(k < 0 and default_dom(t)[0][0] >= 0 for t, k in L.args[1]): return ((-INF, 0),)
    return ALL

# ------------------------------------------------------------------ display
def show(x, depth=7):
    if isinstance(x, T):
        if depth <= 0: return '…'
        o = x.op
        if o == 'lin':
            s = []
            for t, k in x.args[1]:
                s.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + show(t, depth - 1))
            if x.args[0]: s.append(str(x.args[0]))
            return '(' + ' + '.join(s) + ')'
        if o in ('ini', 'ptr'):
            r = show(x.args[0], depth - 1)
            for a in x.args[1]: r += ('.' + a[1]) if a[0] == '.' else '[' + show(a[1], depth - 1) + ']'
            return r if o == 'ini' else '&' + r
        if o == 'param': return x.args[0]
        if o == 'K': return 'K%s' % (x.args[0],)
        if o == 'str': return repr(x.args[0])
        return o + '(' + ', '.join(show(a, depth - 1) for a in x.args) + ')'
    if isinstance(x, tuple): return '<' + ', '.join(show(y, depth - 1) for y in x) + '>'
    if isinstance(x, frozenset): return '{' + ', '.join(sorted(show(y, depth - 1) for y in x)) + '}'
    return str(x)
