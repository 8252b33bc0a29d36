"""Declarative rules over the current tree."""
RULES = {}
def rule(name, *pids):
    def f(fn):
        for p in pids: RULES.setdefault(p, []).append((name, fn))
        return fn
    return f
def run(pid, V):
    out = []
    for name, fn in RULES.get(pid, []):
        n, viol = fn(V, pid)
        out.append(dict(rule=name, instances=n, violations=viol))
    return out

# ---------------------------------------------------------------- helpers
def own(P, f): return f['file'].startswith(P.tree)
def found(R, C, name, keyf=lambda v: v[4]):
    """violations of the current tree which the confirmed tree does not have"""
    base = {keyf(v) for v in R}
    return [v for v in C if keyf(v) not in base]

# ---------------------------------------------------------------- C45, C46: locks
import locks as _locks
_lk = {}
def lockrun(P):
    if id(P) not in _lk: _lk[id(P)] = (_locks.analyse(P, lambda f: own(P, f)), P)
    return _lk[id(P)][0]
C45R = ('registries are accessed under their lock', 'registries are changed under their exclusive lock', 'shared state is changed under one lock', 'counters are changed in one step')
C46R = ('no lock is taken twice', 'locks are taken in one order', 'no user code under an exclusive lock')
def lockrule(V, names, n):
    L = lockrun(V.C); M = lockrun(V.R)
    base = {v[4] for v in M.viol}
    out = [dict(rule=v[0], at=v[1], function=v[2], what=v[3], key=v[4]) for v in L.viol if v[0] in names and v[4] not in base]
    return L.points[n], out
@rule('lockset: accesses to the registries and to shared state, over all calling contexts', 'C45')
def _c45(V, pid): return lockrule(V, C45R, 'accesses')
@rule('lockset: acquisitions, lock order, calls of user functions under a lock', 'C46')
def _c46(V, pid):
    L = lockrun(V.C)
    n, o = lockrule(V, C46R, 'acquisitions')
    return n + L.points['user calls'], o

# ---------------------------------------------------------------- C60, C62: witnesses at the level of types
import os as _os, re as _re, subprocess as _sp
def witness(V, pid):
    """a file of assertions over the types of the current tree, checked by the compiler; only failed assertions count"""
    from prog import VERIF, STUBS
    p = _os.path.join(VERIF, 'witness', pid + '.cpp')
    t = V.C.tree
    r = _sp.run(['clang++', '-std=c++17', '-fsyntax-only', '-ferror-limit=0', '-DNDEBUG', '-Wno-everything', '-I' + t + '/code', '-I' + t + '/v1compat/code', '-I' + STUBS, p], capture_output=True, text=True)
    n = sum(l.count('static_assert(') + l.count('NOCOPY(') * 3 + l.count('NOMOVE(') * 2 + l.count('ISA(') + l.count('NOTA(') for l in open(p) if not l.startswith(('#', ' ')))
    out = []
    for m in _re.finditer(r'^(\S+?):(\d+):\d+: error: static assertion failed(?: due to requirement .*?)?: (.*)$', r.stderr, _re.M):
        w = m.group(3)
        out.append(dict(rule='type witness', at='%s:%s' % (_os.path.basename(m.group(1)), m.group(2)), function='', what=w, key='witness:' + w))
    return n, out
@rule('compile-time witnesses: what must not be copied or moved cannot be', 'C60')
def _c60(V, pid): return witness(V, 'C60')
@rule('compile-time witnesses: bases of the exceptions', 'C62')
def _c62(V, pid): return witness(V, 'C62')

# ---------------------------------------------------------------- C48, C61: which exceptions leave a function
import throws as _throws
_th = {}
ALLOC = _re.compile(r'^(operator new|std::.*::(push_back|emplace\w*|insert\w*|resize|reserve|append|assign|allocate\w*|basic_string|vector)$|std::make_(unique|shared))')
def throwrun(P):
    if id(P) not in _th: _th[id(P)] = (_throws.Throws(P, lambda f: own(P, f) or '/stubs/itlib/' in f['file']), P)
    return _th[id(P)][0]
def escapes(P, f, bare=False):
    g = f
    if f.get('ne') and bare: g = dict(f); g.pop('ne'); g['u'] = f['u'] + '!bare'
    return throwrun(P).of(g)
def has_body(f): return 'body' in f or bool(f.get('inits'))
@rule('no exception of the library or of memory leaves a C function', 'C48')
def _c48(V, pid):
    n = 0; out = []
    for f in V.C.fns.values():
        if not f.get('c') or not own(V.C, f) or 'body' not in f or not f['file'].endswith('.cpp'): continue
        n += 1
        m = V.R.fns.get(f['u'])
        base = {(k, x) for k, x in escapes(V.R, m)} if m is not None and has_body(m) else set()
        if any(k == 'lib' for k, _ in base): continue       # decided on its paths
        for (k, x), (w, q) in escapes(V.C, f).items():
            if (k == 'lib' or k == 'std' and ALLOC.match(x)) and (k, x) not in base:
                out.append(dict(rule='no exception leaves a C function', at=V.where(f), function=f['q'], what='%s thrown at %s (%s) is not caught' % (x, w, q), key='escape:%s:%s' % (f['q'], x)))
                break
    return n, out
@rule('no exception of the library leaves a function marked noexcept', 'C61')
def _c61(V, pid):
    n = 0; out = []
    for f in V.C.fns.values():
        if not f.get('ne') or not own(V.C, f) or not has_body(f): continue
        n += 1
        m = V.R.fns.get(f['u'])
        if m is not None and m.get('ne') and has_body(m) and any(k == 'lib' for k, _ in escapes(V.R, m, True)): continue
        for (k, x), (w, q) in escapes(V.C, f, True).items():
            if k == 'lib':
                out.append(dict(rule='noexcept', at=V.where(f), function=f['q'], what='is marked noexcept, and %s thrown at %s (%s) can leave it' % (x, w, q), key='noexcept:%s:%s' % (f['q'], x)))
                break
    return n, out

# ---------------------------------------------------------------- C49: declared functions are defined
@rule('every function declared in a header is defined', 'C49')
def _c49(V, pid):
    n = 0; out = []
    for u, d in V.C.decls.items():
        if not d['file'].startswith(V.C.tree) or not d['file'].endswith(('.h', '.hpp')) or d.get('deleted') or d.get('pure') or d.get('inst') or d.get('defaulted'): continue
        n += 1
        f = V.C.fns.get(u)
        if d['def'] or (f is not None and has_body(f)): continue
        if d['tu'].startswith('drv/') and not d['q'].startswith('dnmx_') and any(x.startswith('drv/') for x in V.C.failed): continue
        # defined in another language: the C view of a function defined in C++
        if any(has_body(x) for x in V.C.byq.get(d['q'], [])) and d['q'].startswith('dnmx_'): continue
        out.append(dict(rule='declared functions are defined', at='%s:%s' % (V.C.rel(d['file']), d['l']), function=d['q'], what='is declared and nowhere defined', key='undefined:%s(%s)' % (d['q'], ', '.join(d['pts']))))
    return n, out

# ---------------------------------------------------------------- every property: counts and indices do not wrap
import anchors as _an
NARROW = {'unsigned char': 8, 'signed char': 8, 'short': 16, 'unsigned short': 16}
def _nt(t):
    from interp import norm_t
    return norm_t(t or '')
_own = {}
def owners(V):
    """current functions -> the properties they carry; a function nobody names carries what its callers do"""
    if id(V) in _own: return _own[id(V)][0]
    pats = {p: [_re.compile(x[2:] if x.startswith('f:') else x) for x in xs] for p, xs in _an.ANCHORS.items()}
    kind = {p: [x.startswith('f:') for x in xs] for p, xs in _an.ANCHORS.items()}
    P = V.C; o = {}; callers = {}; memo = {}
    def walk(x, f):
        if isinstance(x, dict):
            g = x.get('fn')
            if isinstance(g, dict) and 'u' in g: callers.setdefault(g['u'], set()).add(f['u'])
            for y in x.values():
                if isinstance(y, (dict, list)): walk(y, f)
        elif isinstance(x, list):
            for y in x: walk(y, f)
    for f in P.fns.values():
        if not has_body(f): continue
        walk(f.get('body'), f); walk(f.get('inits'), f)
        k = (f['q'], f['file'])
        if k not in memo: memo[k] = {p for p in pats if any(r.search(P.rel(f['file']) if kf else f['q']) for r, kf in zip(pats[p], kind[p]))}
        o[f['u']] = memo[k]
    known = {f['q'] for f in V.R.fns.values()}
    for _ in range(4):
        for u, f in P.fns.items():
            if not has_body(f) or f['q'] in known and o.get(u): continue
            s = set(o.get(u, ()))
            for c in callers.get(u, ()): s |= o.get(c, set())
            o[u] = s
    _own[id(V)] = (o, V)
    return o
def bounded(x):
    """a value which fits whatever the program does: a constant, a truth value, a masked value"""
    if not isinstance(x, dict): return True
    k = x.get('k')
    if k in ('int', 'bool', 'tobool', 'null'): return True
    if k == 'icast': return bool(x.get('frombool')) or _nt(x.get('t')) in NARROW or bounded(x.get('a'))
    if k == 'bin': return x.get('op') in ('<', '>', '<=', '>=', '==', '!=', '&&', '||') or x.get('op') in ('&', '%') and any(isinstance(x.get(s), dict) and x[s].get('k') == 'int' for s in 'ab') or bounded(x.get('a')) and bounded(x.get('b'))
    if k == 'cond': return bounded(x.get('a')) and bounded(x.get('b'))
    return _nt(x.get('t')) in NARROW or _nt(x.get('t')) in ('char', 'bool')
def narrow_points(P):
    """(function, what, line) of every narrow count: one which is stepped, or filled from a wider value"""
    out = []; n = [0]
    def const_loop(s):
        c = s.get('c')
        return isinstance(c, dict) and c.get('k') == 'bin' and any(isinstance(c.get(x), dict) and c[x].get('k') == 'int' for x in 'ab')
    def walk(x, f, line, ex):
        if isinstance(x, dict):
            line = x.get('l', line); k = x.get('k')
            if k == 'icast':
                n[0] += 1
                if x.get('trunc') and _nt(x.get('t')) in NARROW and not bounded(x.get('a')): out.append((f, 'a wider value is cut to %s' % _nt(x['t']), line))
            elif k == 'un' and x.get('op') in ('++', '--'):
                n[0] += 1
                if _nt(x.get('t')) in NARROW and not ex: out.append((f, 'a count is kept in %s' % _nt(x['t']), line))
            elif k == 'casgn' and x.get('op', '').rstrip('=') in ('+', '-', '*', '<<'):
                n[0] += 1
                if isinstance(x.get('a'), dict) and _nt(x['a'].get('t')) in NARROW and not ex: out.append((f, 'a count is kept in %s' % _nt(x['a']['t']), line))
            if k == 'for': ex = ex or const_loop(x)
            for y in x.values():
                if isinstance(y, (dict, list)): walk(y, f, line, ex)
        elif isinstance(x, list):
            for y in x: walk(y, f, line, ex)
    for f in P.fns.values():
        if own(P, f) and has_body(f): walk(f.get('body'), f, f['l'], False); walk(f.get('inits'), f, f['l'], False)
    return n[0], out
_nr = {}
def narrowrun(P):
    if id(P) not in _nr: _nr[id(P)] = (narrow_points(P), P)
    return _nr[id(P)][0]
def _narrow(V, pid):
    n, pts = narrowrun(V.C); base = {(f['q'], w) for f, w, _ in narrowrun(V.R)[1]}
    if not pts: return n, []
    o = owners(V); seen = set(); out = []
    for f, w, l in pts:
        k = (f['q'], w)
        if k in base or k in seen or pid not in o.get(f['u'], ()): continue
        seen.add(k)
        out.append(dict(rule='counts do not wrap', at='%s:%s' % (V.C.rel(f['file']), l), function=f['q'], what=w + ', and nothing bounds it', key='narrow:%s:%s' % k))
    return n, out
for _p in _an.ANCHORS: rule('counts, indices and results are kept in integers which hold them', _p)(_narrow)
