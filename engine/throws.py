"""Which functions can be left by an exception: throw sites reached over the call graph which no handler on the way takes."""
from interp import norm_t
LIB = 'lib'      # thrown by the library: throw expressions
STD = 'std'      # whatever a function without a body and not marked may throw
PTR = 'user'     # called through a pointer which is not marked

class Throws:
    def __init__(self, P, inlib):
        self.P = P; self.inlib = inlib; self.memo = {}; self.busy = set(); self.n = 0
    def bases(self, t):
        out = {t}; st = [t]
        while st:
            r = self.P.recs.get(st.pop())
            for b in (r or {}).get('bs', []):
                b = norm_t(b if isinstance(b, str) else b.get('t'))
                if b not in out: out.add(b); st.append(b)
        if any(x.startswith('std::') for x in out): out.add('std::exception')
        return out
    def of(self, f, clos=None):
        """-> {(kind, what): (where, path)}; clos: parameter -> escapes of the function given for it"""
        k = (f['u'], None if not clos else tuple(sorted((p, tuple(sorted(x))) for p, x in clos.items())))
        if k in self.memo: return self.memo[k]
        if k in self.busy: return {}
        self.busy.add(k); self.n += 1
        env = {f['ps'][i]['d']: x for i, x in (clos or {}).items() if i < len(f['ps'])}
        r = {}
        for i in f.get('inits') or []: self.walk(i, f, r, env)
        if f.get('body'): self.walk(f['body'], f, r, env)
        if f.get('ne'): r = {}
        self.busy.discard(k); self.memo[k] = r
        return r
    def walk(self, n, f, r, env):
        if isinstance(n, list):
            for x in n: self.walk(x, f, r, env)
            return
        if not isinstance(n, dict): return
        k = n.get('k')
        if k == 'try':
            a = {}; self.walk(n['b'], f, a, env)
            for h in n['h']:
                t = h.get('t') or (h.get('v') or {}).get('t')
                a = {x: w for x, w in a.items() if not self.takes(t, x)}
                self.walk(h.get('b'), f, r, env)
            for x, w in a.items(): r.setdefault(x, w)
            return
        if k == 'throw':
            a = n.get('a')
            r.setdefault((LIB, self.ttype(a) if a else '(rethrown)'), ('%s:%s' % (self.P.rel(f['file']), n.get('l', f['l'])), f['q']))
            self.walk(a, f, r, env)
            return
        if k == 'lambda': return
        if k in ('call', 'ctor'):
            fn = n.get('fn'); args = n.get('args') or []
            if n.get('obj') is not None: self.walk(n['obj'], f, r, env)
            for a in args: self.walk(a, f, r, env)
            w = ('%s:%s' % (self.P.rel(f['file']), n.get('l', f['l'])), f['q'])
            if fn is None:
                c = n.get('callee'); self.walk(c, f, r, env)
                v = strip(c)
                if v and v['k'] == 'var' and v['d'] in env: e = env[v['d']]
                elif 'noexcept' in str((v or {}).get('t', '')) or n.get('ne'): e = {}
                else: e = {(PTR, norm_t(str((v or {}).get('t', '')))): w}
                for x, y in e.items(): r.setdefault(x, y)
                return
            g = self.P.fns.get(fn['u'])
            cl = {}
            for i, a in enumerate(args):
                c = self.clos(a, f, env)
                if c is not None: cl[i] = c
            o = self.clos(n['obj'], f, env) if n.get('obj') is not None else None
            if o is None and fn['n'] == 'operator()' and args: o = cl.get(0)
            if o is not None and fn['n'] == 'operator()': e = o
            elif fn.get('ne') or (g or {}).get('ne'): e = {}
            elif g is not None and ('body' in g or g.get('inits')) and self.inlib(g): e = self.of(g, cl)
            else:
                e = {}
                d = self.P.decls.get(fn['u']) or g or {}
                if not d.get('ne'): e[(STD, fn['q'])] = w
                for c in cl.values(): e.update(c)
            for x, y in e.items(): r.setdefault(x, y)
            return
        for x in n.values():
            if isinstance(x, (dict, list)): self.walk(x, f, r, env)
    def clos(self, a, f, env):
        a = strip(a)
        if a is None: return None
        if a['k'] == 'var': return env.get(a['d'])
        if a['k'] == 'lambda':
            fn = a.get('fn'); gs = [fn] if fn else a.get('insts', [])
            e = {}
            for g in gs:
                g = self.P.fns.get(g if isinstance(g, str) else g.get('u'))
                if g: e.update(self.of(dict(g, q=f['q']) if False else g))
            return e
        return None
    def ttype(self, a):
        while isinstance(a, dict) and a.get('k') in ('full', 'tmp', 'cast', 'icast', 'decay'): a = a.get('a')
        while isinstance(a, dict) and a.get('k') == 'ctor' and len(a.get('args') or []) == 1 and norm_t(str((a['args'][0] or {}).get('cls') or '')) == norm_t(a['cls']): a = a['args'][0]
        return norm_t(str(a.get('cls') or a.get('t') or '')) if a else ''
    def takes(self, t, x):
        if not t or t == '...': return True
        t = norm_t(t.replace('const ', '').rstrip('& '))
        if x[0] == LIB: return t in self.bases(x[1])
        return t == 'std::exception'
def strip(a):
    while isinstance(a, dict) and a.get('k') in ('full', 'tmp', 'cast', 'icast', 'decay', 'un', 'ctor', 'call'):
        if a['k'] == 'ctor':
            if len(a.get('args') or []) == 1 and not str(a.get('cls', '')).startswith('std::function'): a = a['args'][0]; continue
            return a
        if a['k'] == 'call':
            if (a.get('fn') or {}).get('q') in ('std::move', 'std::forward') and a.get('args'): a = a['args'][0]; continue
            return a
        a = a.get('a')
    return a if isinstance(a, dict) else None
