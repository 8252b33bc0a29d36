"""Congruence of function definitions: alpha-normalised syntax trees closed over everything they reach."""
import re, hashlib, json
from interp import OPAQUE, norm_t
LAM = re.compile(r'\((lambda|anonymous [a-z]+|unnamed [a-z]+) at [^()]*?:\d+:\d+\)')
POS = re.compile(r'@\d+(?=@)')
SKIP = {'l', 'el', 'tu', 'file', 'acc', 'inl', 'n', 'pos', 'col'}
def clean(s):
    if '(' in s: s = LAM.sub('(lambda)', s)
    if '@' in s: s = POS.sub('@', s)
    return s

def is_assert(s):
    while isinstance(s, dict) and s.get('k') in ('expr', 'full', 'void'): s = s.get('e') or s.get('a')
    return isinstance(s, dict) and s.get('k') == 'call' and s.get('fn', {}).get('q') == 'dmx_assert_'

class Congr:
    def __init__(self, prog):
        self.P = prog; self.sh = {}; self.dp = {}; self.rd = {}
    def walk(self, x, env, out, refs):
        if isinstance(x, dict):
            k = x.get('k')
            out.append('{')
            for key in sorted(x):
                if key in SKIP: 
                    if key == 'n' and k in ('mem',): out.append('n=' + str(x['n']))
                    continue
                v = x[key]
                if key == 'd' and isinstance(v, int):
                    out.append('d%d' % env.setdefault(v, len(env))); continue
                if key == 'u' and isinstance(v, str):
                    refs[0].add(v); out.append('u' + clean(v)); continue
                if isinstance(v, (dict, list)): out.append(key); self.walk(v, env, out, refs)
                elif v is None or v is False: continue
                else:
                    if key in ('t', 'cls', 'own') and isinstance(v, str): refs[1].add(v)
                    if key == 'q' and k == 'glob':
                        if 'static-local:' in v: out.append('q=' + v.split('static-local:')[0] + 'static'); continue
                        refs[2].add(v)
                    out.append(key + '=' + clean(str(v)))
            out.append('}')
        elif isinstance(x, list):
            out.append('[')
            for y in x:
                if isinstance(y, dict) and is_assert(y): continue
                self.walk(y, env, out, refs)
            out.append(']')
        else: out.append(clean(str(x)))
    def node(self, x):
        out = []; self.walk(x, {}, out, (set(), set(), set()))
        return hashlib.md5('|'.join(out).encode()).hexdigest()[:16]
    def shallow(self, f):
        u = id(f)
        r = self.sh.get(u)
        if r is None:
            out = []; refs = (set(), set(), set()); env = {}
            self.walk([f.get('ps'), f.get('ret'), f.get('inits'), f.get('body'), f.get('ne'), f.get('kind'), f.get('cls'), f.get('static'), f.get('noret')], env, out, refs)
            r = (hashlib.md5('|'.join(out).encode()).hexdigest(), refs, f)
            self.sh[u] = r
        return r
    def record(self, t, seen):
        t = norm_t(t)
        while t.endswith('*') or t.endswith('*const'): t = norm_t(t[:t.rindex('*')])
        if t in seen: return ''
        seen.add(t)
        s = ''
        r = self.P.recs.get(t) or self.P.recq.get(t)
        if r:
            if t not in self.rd:
                out = []; self.walk([r['bs'], r['fs'], [[m['n'], m.get('sm'), m.get('deleted'), m.get('user')] for m in r['ms'] if m.get('sm')]], {}, out, (set(), set(), set()))
                out += [f['n'] for f in r['fs']]
                self.rd[t] = hashlib.md5('|'.join(out).encode()).hexdigest()
            s = clean(t) + self.rd[t]
            for x in r['bs'] + r['fs']: s += self.record(x['t'], seen)
        elif '<' in t:
            for a in re.findall(r'[\w:]+(?:<[^<>]*>)?', t[t.index('<'):]):
                if a in self.P.recs: s += self.record(a, seen)
        return s
    def deep(self, f):
        """digest of the definition and of everything it can reach without crossing an opaque boundary"""
        u = id(f)
        r = self.dp.get(u)
        if r is not None: return r
        hist = '_hist_' in f['q']
        seen = {}; st = [f]; types = set(); globs = set(); gd = {}
        while st:
            g = st.pop()
            if id(g) in seen: continue
            h, refs, _ = self.shallow(g)
            seen[id(g)] = h
            types |= refs[1]
            if g.get('cls'): types.add(g['cls'])
            us = set(refs[0])
            for q in refs[2]:
                if q not in gd:
                    gl = self.P.globals.get(q)
                    o = []; rr = (set(), set(), set())
                    if gl and 'init' in gl: self.walk(gl['init'], {}, o, rr)
                    gd[q] = '|'.join(o); us |= rr[0]; types |= rr[1]
            for v in us:
                k = self.P.fns.get(v)
                if k is None or not ('body' in k or 'inits' in k): continue
                if not hist and OPAQUE.match(k['q']) and k.get('cls') != g.get('cls'): continue
                st.append(k)
            for t in list(refs[1]):
                rec = self.P.recs.get(norm_t(t))
                if rec:
                    for m in rec['ms']:
                        if m.get('sm') == 'dtor':
                            k = self.P.fns.get(m['u'])
                            if k and 'body' in k and (hist or not OPAQUE.match(k['q'])): st.append(k)
        sr = set()
        recs = ''.join(sorted(self.record(t, sr) for t in sorted(types, key=clean)))
        r = hashlib.md5((self.shallow(f)[0] + '|' + '|'.join(sorted(seen.values())) + '|' + recs + '|' + '|'.join(sorted(q + '=' + x for q, x in gd.items()))).encode()).hexdigest()[:20]
        self.dp[u] = r
        return r
