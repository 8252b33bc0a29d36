"""Static lockset analysis: which locks are held at each access to shared state and at each acquisition, over all calling contexts.
Flow-sensitive within a function (scopes, temporaries, early exits), context-sensitive over calls (locks held by the caller, what the
reference parameters designate). A lock counts as held only where it is held on every way to the point."""
import re, collections
from interp import norm_t

LOCKCLS = re.compile(r'^(?:const )?(itlib::data_lock<|std::(unique_lock|shared_lock|lock_guard|scoped_lock)<)')
STDLOCK = re.compile(r'^(?:const )?std::(unique_lock|shared_lock|lock_guard|scoped_lock)<')
MUTEXT = re.compile(r'^(?:const |mutable )*(std::(shared_mutex|mutex|recursive_mutex|shared_timed_mutex|timed_mutex)|dynamix::shared_mutex)\b')
DMUTEX = re.compile(r'^(?:const )?itlib::data_mutex<')
ATOMIC = re.compile(r'atomic')
ITER = re.compile(r'iterator')
MUTATORS = {'push_back', 'emplace_back', 'emplace', 'insert', 'erase', 'clear', 'operator[]', 'resize', 'assign', 'swap', 'reset', 'pop_back', 'pop_front', 'push_front', 'emplace_front',
            'operator=', 'operator+=', 'append', 'insert_or_assign', 'try_emplace', 'extract', 'merge', 'reserve', 'shrink_to_fit', 'operator++', 'operator--', 'replace', 'release', 'store'}

def targ0(t):
    i = t.index('<') + 1; d = 0
    for j in range(i, len(t)):
        c = t[j]
        if c == '<': d += 1
        elif c == '>':
            if d == 0: return t[i:j]
            d -= 1
        elif c == ',' and d == 0: return t[i:j].strip()
    return t[i:]

class Val:
    __slots__ = ('al', 'lock', 'clos', 'key')
    def __init__(self, al=frozenset(), lock=None, clos=None, key=None): self.al = al; self.lock = lock; self.clos = clos; self.key = key
NONE = Val()

class St:
    __slots__ = ('held', 'env')
    def __init__(self, held=None, env=None): self.held = held or {}; self.env = env or {}
    def copy(self): return St(dict(self.held), dict(self.env))
def join(a, b):
    if a is None: return b
    if b is None: return a
    h = {k: v for k, v in a.held.items() if k in b.held}
    return St(h, {**b.env, **a.env})

class Locks:
    def __init__(self, P, inlib):
        self.P = P; self.inlib = inlib
        self.guard = {}      # registry struct -> mutex key
        self.acc = collections.defaultdict(list)   # shared variable -> [(write, lockset, where)]
        self.viol = []       # (rule, where, function, what, key)
        self.orders = {}     # (held, acquired) -> where
        self.points = collections.Counter()
        self.memo = {}; self.stack = []; self.uid = 0
        self.shared = set()  # classes whose plain fields are shared state
        for t, r in P.recs.items():
            for f in r['fs']:
                if DMUTEX.match(f['t']): self.guard[norm_t(targ0(f['t']))] = f['n']; self.shared.add(t)
                elif MUTEXT.match(f['t']): self.shared.add(t)
        self.shared -= set(x for x in self.shared if x.startswith('itlib::'))
        self.shared |= {'dynamix::domain'}
        self.ftype = {}
        for t, r in P.recs.items():
            for f in r['fs']: self.ftype[(t, f['n'])] = f
    # ------------------------------------------------------------ report
    def where(self, f, l): return '%s:%s' % (self.P.rel(f['file']), l)
    def note(self, rule, l, what, key):
        f = self.stack[-1][0]
        v = (rule, self.where(f, l), f['q'], what, key)
        if v not in self.viol: self.viol.append(v)
    # ------------------------------------------------------------ entry
    def root(self, f, held=()):
        self.stack = []
        h = {('root', k): (k, m) for k, m in held}
        self.call(f, h, {})
    def call(self, f, held, pals, retself=False):
        """-> (Val of the result, locks which stay held in what was built)"""
        key = (f['u'], frozenset(held.values()), tuple(sorted((k, tuple(sorted(v.al)), v.lock is not None) for k, v in pals.items())), self.inctor())
        if key in self.memo: return self.memo[key]
        if len(self.stack) > 40 or any(x[0] is f for x in self.stack): return NONE, {}
        self.memo[key] = (NONE, {})
        st = St(dict(held), {})
        for i, p in enumerate(f['ps']):
            if i in pals: st.env[p['d']] = pals[i]
        fr = [f, Val(), {}]      # function, result, escaped locks
        self.stack.append(fr)
        self.points['contexts'] += 1
        try:
            self.temps = getattr(self, 'temps', [])
            sv, self.temps = self.temps, [[]]
            for i in f.get('inits') or []:
                if i.get('e') is not None or i.get('init') is not None:
                    v = self.ev(i.get('e') or i.get('init'), st)
                    if v.lock is not None and v.lock in st.held: fr[2][v.lock] = st.held[v.lock]
            self.rets = getattr(self, 'rets', [])
            if 'body' in f: self.stmt(f['body'], st)
            self.temps = sv
        finally: self.stack.pop()
        r = (fr[1], fr[2])
        self.memo[key] = r
        return r
    def inctor(self):
        """classes under construction or destruction"""
        return frozenset(norm_t(x[0]['cls']) for x in self.stack if x[0].get('kind') in ('ctor', 'dtor') and x[0].get('cls'))
    # ------------------------------------------------------------ locks
    def acquire(self, st, key, mode, l):
        self.points['acquisitions'] += 1
        for k, m in st.held.values():
            if k == key:
                self.note('no lock is taken twice', l, '%s is taken (%s) while it is already held (%s)' % (key, mode, m), 'relock:%s:%s' % (self.stack[-1][0]['q'], key))
            else: self.orders.setdefault((k, key), (self.where(self.stack[-1][0], l), self.stack[-1][0]['q']))
        self.uid += 1
        i = ('l', self.uid)
        st.held[i] = (key, mode)
        self.temps[-1].append(i)
        return i
    def keep(self, i):
        for t in self.temps:
            if i in t: t.remove(i)
    def mkey(self, e, st):
        """the mutex an expression designates"""
        while e is not None:
            k = e['k']
            if k == 'mem': return e['f'] if (DMUTEX.match(e.get('t', '')) or MUTEXT.match(e.get('t', ''))) else None
            if k == 'var':
                v = st.env.get(e['d']); return v.key if v else None
            if k == 'glob': return e['q']
            if k in ('full', 'tmp', 'cast', 'icast', 'decay', 'un'): e = e.get('a'); continue
            if k == 'call' and e.get('args') and (e.get('fn') or {}).get('q', '').startswith('std::'): e = e['args'][0]; continue
            return None
    # ------------------------------------------------------------ accesses
    def access(self, al, write, st, l, via=None):
        for F in al:
            own, f, kept = F
            if own == '@lock': continue
            self.points['accesses'] += 1
            locks = {k: m for k, m in st.held.values()}
            if kept: locks.setdefault(self.guard.get(own), kept)
            if own in self.guard:
                key = self.guard[own]
                if own in self.inctor() or self.busyctor(): continue
                if key not in locks:
                    self.note('registries are accessed under their lock', l, '%s::%s is %s without %s' % (own, f, 'changed' if write else 'read', key), 'unlocked:%s:%s' % (self.stack[-1][0]['q'], f))
                elif write and locks[key] != 'excl':
                    self.note('registries are changed under their exclusive lock', l, '%s::%s is changed while %s is only shared' % (own, f, key), 'shared:%s:%s' % (self.stack[-1][0]['q'], f))
            else:
                if own in self.inctor(): continue
                self.acc[F[:2]].append((write, frozenset((k, m) for k, m in locks.items()), self.where(self.stack[-1][0], l), self.stack[-1][0]['q']))
    def busyctor(self): return any(c in self.shared for c in self.inctor())
    def track(self, own, f):
        """is the field shared state we follow?"""
        own = norm_t(own)
        if own in self.guard: return True
        x = self.ftype.get((own, f))
        if x is None or DMUTEX.match(x['t']) or MUTEXT.match(x['t']) or x['t'].startswith('const ') or x['t'].endswith('&') or x['t'].endswith('*const'): return False
        if ATOMIC.search(x['t']) or 'allocator' in x['t']: return False
        return own in self.shared or bool(x.get('mut'))
    # ------------------------------------------------------------ expressions
    def ev(self, e, st, write=False, load=True):
        """evaluate; load: the designated variable is read (else only designated); write: it is changed"""
        if e is None or not isinstance(e, dict): return NONE
        k = e.get('k')
        m = getattr(self, 'e_' + k, None) if k else None
        if m: return m(e, st, write, load)
        r = NONE
        for c in kids(e):
            v = self.ev(c, st)
            if v.al or v.lock: r = v if len(kids(e)) == 1 else r
        return r
    def e_full(self, e, st, w, ld):
        self.temps.append([])
        v = self.ev(e['a'], st, w, ld)
        for i in self.temps.pop():
            if i == v.lock: self.temps[-1].append(i)   # the value of the full expression: bound by the caller
            else: st.held.pop(i, None)
        return v
    def e_tmp(self, e, st, w, ld): return self.ev(e['a'], st, w, ld)
    def e_cast(self, e, st, w, ld): return self.ev(e['a'], st, w, ld)
    e_icast = e_decay = e_cast
    def e_var(self, e, st, w, ld):
        v = st.env.get(e['d'], NONE)
        if v.al and (ld or w): self.access(v.al, w, st, e['l'])
        return v
    def e_mem(self, e, st, w, ld):
        own = norm_t(e['own'])
        if self.track(own, e['f']):
            bv = self.ev(e['b'], st, False, False)
            kept = next((x[2] for x in bv.al if x[0] == '@lock'), None)     # reached through a lock the object keeps
            al = frozenset([(own, e['f'], kept)])
            if e.get('t', '').endswith('&'): al = frozenset()
            if al and (ld or w): self.access(al, w, st, e['l'])
            return Val(al)
        b = self.ev(e['b'], st, w, ld)
        if DMUTEX.match(e.get('t', '')) or MUTEXT.match(e.get('t', '')): return Val(key=e['f'])
        return Val(b.al) if b.al else NONE
    def e_idx(self, e, st, w, ld):
        self.ev(e['i'], st)
        return Val(self.ev(e['b'], st, w, ld).al)
    def e_un(self, e, st, w, ld):
        op = e['op']
        if op in ('++', '--'): return self.ev(e['a'], st, not ITER.search(str(e.get('t', ''))) and not str(e.get('t', '')).endswith('*'), True)
        if op == '&': return self.ev(e['a'], st, False, False)
        v = self.ev(e['a'], st, w, ld)
        return v if op == '*' else NONE
    def e_asgn(self, e, st, w, ld):
        r = self.ev(e['b'], st)
        a = e['a']
        if a['k'] == 'var':
            v = st.env.get(a['d'])
            if v is not None and v.al and not self.isptr(a.get('t', '')): self.access(v.al, True, st, e['l']); return v
            if self.isptr(a.get('t', '')):
                st.env[a['d']] = Val(r.al); return st.env[a['d']]
            if r.clos is not None or r.lock is not None: st.env[a['d']] = r; self.keep(r.lock)
            return NONE
        if r.lock is not None and a['k'] == 'mem': self.escape(r.lock, st)
        v = self.ev(a, st, True, False)
        self.rmw(a, e['b'], e['l'])
        return v
    def rmw(self, a, b, l):
        """atomic = atomic op x: not one step"""
        if a['k'] == 'mem' and ATOMIC.search(str(a.get('t', ''))) and reads(b, a['own'], a['f']):
            self.note('counters are changed in one step', l, '%s::%s is read and then written' % (a['own'], a['f']), 'rmw:%s:%s' % (self.stack[-1][0]['q'], a['f']))
    def e_casgn(self, e, st, w, ld):
        self.ev(e['b'], st)
        if e['a']['k'] == 'var' and self.isptr(e['a'].get('t', '')): return self.ev(e['a'], st, False, False)
        return self.ev(e['a'], st, True, True)
    def isptr(self, t): return t.endswith('*') or bool(ITER.search(t)) or t.startswith('itlib::span<')
    def e_cond(self, e, st, w, ld):
        self.ev(e['c'], st)
        a = self.ev(e['a'], st, w, ld); b = self.ev(e['b'], st, w, ld)
        return Val(a.al | b.al)
    def e_lambda(self, e, st, w, ld):
        fn = e.get('fn')
        g = [self.P.fns.get(fn['u'])] if fn else [self.P.fns.get(x if isinstance(x, str) else x.get('u')) for x in e.get('insts', [])]
        return Val(clos=(e, [x for x in g if x and 'body' in x]))
    def run_clos(self, v, st):
        if v.clos is None: return
        e, gs = v.clos
        for g in gs:
            if any(x[0] is g for x in self.stack): continue
            s2 = St(st.held, dict(st.env))
            for p in g['ps']: s2.env.pop(p['d'], None)
            self.stack.append([dict(g, cls=self.stack[-1][0].get('cls'), kind='lambda', q=self.stack[-1][0]['q']), Val(), {}])
            sv, self.temps = self.temps, [[]]
            try: self.stmt(g['body'], s2)
            finally: self.stack.pop(); self.temps = sv
    def escape(self, lock, st):
        if lock in st.held: self.stack[-1][2][lock] = st.held[lock]
        self.keep(lock)
    def e_init(self, e, st, w, ld):
        for a in e['args']:
            v = self.ev(a, st)
            if v.lock is not None: self.escape(v.lock, st)
        return NONE
    def e_new(self, e, st, w, ld):
        for a in e.get('pl') or []: self.ev(a, st)
        v = self.ev(e.get('init'), st)
        if v.lock is not None: self.escape(v.lock, st)
        return NONE
    def e_ctor(self, e, st, w, ld):
        t = norm_t(e['cls'])
        if LOCKCLS.match(t):
            if e.get('args'):
                a0 = e['args'][0]
                v = self.ev(a0, st, False, False)
                if v.lock is not None: return v     # moved
                if STDLOCK.match(t):
                    key = self.mkey(a0, st)
                    if key is not None and len(e['args']) == 1: return Val(lock=self.acquire(st, key, 'shared' if 'shared_lock<' in t else 'excl', e['l']))
                    if key is not None: return Val(lock=('deferred', key))
            return NONE
        vs = [self.ev(a, st, False, not (i < len(self.pm(e)) and self.pm(e)[i] in (1, 2, 5))) for i, a in enumerate(e.get('args', []))]
        return self.invoke(e, vs, st)
    def pm(self, e): return e.get('pm') or []
    def e_call(self, e, st, w, ld):
        fn = e.get('fn')
        if fn is None:
            # through a pointer: code of the user
            self.ev(e.get('callee'), st)
            for a in e['args']: self.run_clos(self.ev(a, st), st)
            self.user(st, e['l'])
            return NONE
        q = fn['q']; cls = fn.get('cls') or ''
        obj = e.get('obj')
        n = fn['n']
        if DMUTEX.match(cls):
            key = self.mkey(obj, st)
            if n in ('unique_lock', 'shared_lock') and key is not None: return Val(lock=self.acquire(st, key, 'excl' if n == 'unique_lock' else 'shared', e['l']))
            return NONE
        if cls.startswith('itlib::data_lock<') or STDLOCK.match(cls):
            v = self.ev(obj, st, False, False)
            if cls.startswith('itlib::data_lock<') and v.lock is None and n in ('operator->', 'operator*', 'get') and fieldlock(obj):
                return Val(frozenset([('@lock', '', 'shared' if targ0(cls).startswith('const ') else 'excl')]))
            if n == 'unlock':
                if v.lock is not None: st.held.pop(v.lock, None)
                return NONE
            if n in ('lock', 'lock_shared', 'try_lock') and STDLOCK.match(cls):
                if v.lock is not None and v.lock not in st.held:
                    key = v.lock[1] if v.lock[0] == 'deferred' else self.lockkeys.get(v.lock) if hasattr(self, 'lockkeys') else None
                    if key:
                        i = self.acquire(st, key, 'shared' if 'shared_lock<' in cls else 'excl', e['l']); self.keep(i)
                return NONE
            return NONE
        if MUTEXT.match(cls):
            key = self.mkey(obj, st)
            if key and n in ('lock', 'lock_shared'): self.keep(self.acquire(st, key, 'excl' if n == 'lock' else 'shared', e['l']))
            elif key and n.startswith('unlock'):
                for i in [i for i, (k, m) in st.held.items() if k == key]: st.held.pop(i)
            return NONE
        if q in ('std::move', 'std::forward', 'std::addressof', 'std::as_const'): return self.ev(e['args'][0], st, w, ld)
        pm = self.pm(e); pt = fn.get('pt') or []
        g = self.P.fns.get(fn['u'])
        body = g is not None and 'body' in g and self.inlib(g)
        vs = []
        for i, a in enumerate(e['args']):
            md = pm[i] if i < len(pm) else 0
            byref = md in (1, 2, 5)
            opself = obj is None and i == 0 and e.get('opc') in ('=', '+=', '++', '--', '[]')
            wr = (not body) and (md == 2 and not q.startswith('std::') or opself and e.get('opc') != '[]')
            vs.append(self.ev(a, st, wr, not (byref and body)))
        ov = NONE
        if obj is not None:
            mut = not fn.get('const') and not fn.get('static')
            stdm = cls.startswith(('std::', 'itlib::')) and not body
            wr = mut and (n in MUTATORS if stdm else not body)
            if ITER.search(cls.split('<')[0]) or stdm and ITER.search(norm_t(obj.get('t') or '')): wr = False
            if n == 'operator[]' and not re.search(r'map<', cls): wr = False
            ov = self.ev(obj, st, wr, not body or True if not self.alonly(obj, st) else True)
        # std functions: run function arguments now
        if not body:
            for v in vs: self.run_clos(v, st)
            if q.startswith('std::function<') and n == 'operator()': self.user(st, e['l'])
            if ov.clos is not None: self.run_clos(ov, st)
            t = norm_t(e.get('t') or '')
            rt = fn.get('rt') or ''
            al = frozenset()
            if e.get('lv') or self.isptr(t) or t.startswith('std::pair<') and ITER.search(t):
                if self.isptr(t) and t.endswith('*') and not e.get('lv') and n not in ('data', 'begin', 'end', 'addressof', 'pfind', 'pfind_if', 'to_address'): al = frozenset()
                else:
                    al = ov.al
                    for v in vs: al |= v.al
            return Val(al)
        return self.invoke(e, vs, st, ov, g)
    def alonly(self, obj, st): return True
    def invoke(self, e, vs, st, ov=NONE, g=None):
        fn = e['fn']
        if g is None: g = self.P.fns.get(fn['u'])
        if g is None or not ('body' in g or g.get('inits')) or not self.inlib(g):
            for v in vs: self.run_clos(v, st)
            return NONE
        if ov.clos is not None: self.run_clos(ov, st); return NONE
        pals = {i: v for i, v in enumerate(vs) if v.al or v.lock is not None or v.clos is not None or v.key}
        # a function given as an argument runs inside of the callee: with the locks the callee holds then
        held = dict(st.held)
        r, esc = self.call(g, held, {i: Val(v.al, None, v.clos, v.key) for i, v in pals.items()})
        ret = Val(r.al, None, r.clos, r.key)
        if r.lock is not None and isinstance(r.lock, tuple) and r.lock[0] == 'ret':
            ret = Val(lock=self.hold(st, r.lock[1]))
        if esc and (g.get('kind') == 'ctor'):
            # the object keeps the locks
            ids = [self.hold(st, x) for x in sorted(set(esc.values()))]
            ret = Val(lock=('obj', tuple(ids)))
            for i in ids: self.keep(i); self.temps[-1].append(i)
        return ret
    def hold(self, st, km):
        self.uid += 1
        i = ('l', self.uid); st.held[i] = km; self.temps[-1].append(i)
        return i
    def user(self, st, l):
        self.points['user calls'] += 1
        for k, m in st.held.values():
            if m == 'excl': self.note('no user code under an exclusive lock', l, 'a function of the user is called while %s is held exclusively' % k, 'user:%s:%s' % (self.stack[-1][0]['q'], k))
    # ------------------------------------------------------------ statements
    def stmt(self, s, st):
        """-> state after, None if control does not get there"""
        if s is None or st is None: return st
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m: return m(s, st)
        self.temps.append([])
        self.ev(s, st)
        for i in self.temps.pop(): st.held.pop(i, None)
        return st
    def s_expr(self, s, st):
        self.temps.append([])
        v = self.ev(s['e'], st)
        for i in self.temps.pop(): st.held.pop(i, None)
        c = s['e']
        while c and c['k'] in ('full', 'void', 'tmp'): c = c.get('a')
        if c and c['k'] == 'throw': return None
        if c and c['k'] == 'call':
            g = self.P.fns.get((c.get('fn') or {}).get('u')) or self.P.decls.get((c.get('fn') or {}).get('u')) or {}
            if g.get('noret'): return None
        return st
    def s_block(self, s, st):
        mine = set(st.held)
        decl = []
        self.scopes = getattr(self, 'scopes', [])
        self.scopes.append(decl)
        for x in s['s']:
            st = self.stmt(x, st)
            if st is None: break
        self.scopes.pop()
        if st is not None:
            for i in decl: st.held.pop(i, None)
        return st
    def bind(self, st, d, v):
        st.env[d] = v
        if v.lock is not None:
            ids = v.lock[1] if v.lock[0] == 'obj' else (v.lock,)
            for i in ids:
                self.keep(i)
                for sc in self.scopes:
                    if i in sc: sc.remove(i)
                self.scopes[-1].append(i)
    def s_decl(self, s, st):
        for v in s['v']:
            i = v.get('init')
            t = v.get('t') or ''
            self.temps.append([])
            isref = bool(v.get('ref')) or t.endswith('&')
            r = self.ev(i, st, False, not isref) if i is not None else NONE
            tl = self.temps.pop()
            key = self.mkey(i, st) if isref and i is not None else None
            keepids = () if r.lock is None else (r.lock[1] if r.lock[0] == 'obj' else (r.lock,))
            for x in tl:
                if x not in keepids: st.held.pop(x, None)
            al = r.al if (isref or self.isptr(norm_t(t)) or (norm_t(t).startswith('std::pair<') and ITER.search(t))) else frozenset()
            nt = norm_t(t)
            if nt.endswith('*') and i is not None and not addressed(i): al = frozenset()
            self.bind(st, v['d'], Val(al, r.lock, r.clos, key))
            for b in v.get('binds') or []:
                if 'd' in b: st.env[b['d']] = Val(al)
        return st
    def s_if(self, s, st):
        mine = []
        self.scopes = getattr(self, 'scopes', []); self.scopes.append(mine)
        if s.get('cv'): 
            for x in (s['cv'] if isinstance(s['cv'], list) else [s['cv']]): self.s_decl({'v': [x]}, st) if 'd' in x else self.stmt(x, st)
        self.temps.append([])
        if s.get('cx') is None or True: self.ev(s['c'], st)
        for i in self.temps.pop(): st.held.pop(i, None)
        a = self.stmt(s['t'], st.copy()) if s.get('t') else st.copy()
        b = self.stmt(s['f'], st.copy()) if s.get('f') else st.copy()
        if s.get('cx') is not None and s.get('cx') in (True, False, 0, 1, '0', '1'):
            r = a if s['cx'] in (True, 1, '1') else b
        else: r = join(a, b)
        self.scopes.pop()
        if r is not None:
            for i in mine: r.held.pop(i, None)
        return r
    def loop(self, st, f):
        for _ in range(2):
            r = f(st.copy())
            st = join(st, r)
        return st
    def s_while(self, s, st):
        def f(x):
            self.temps.append([]); self.ev(s['c'], x)
            for i in self.temps.pop(): x.held.pop(i, None)
            return self.stmt(s['b'], x)
        return self.loop(st, f)
    s_do = s_while
    def s_for(self, s, st):
        mine = []
        self.scopes = getattr(self, 'scopes', []); self.scopes.append(mine)
        if s.get('init'): st = self.stmt(s['init'], st)
        def f(x):
            if s.get('c'):
                self.temps.append([]); self.ev(s['c'], x)
                for i in self.temps.pop(): x.held.pop(i, None)
            x = self.stmt(s['b'], x)
            if x is not None and s.get('inc'):
                self.temps.append([]); self.ev(s['inc'], x)
                for i in self.temps.pop(): x.held.pop(i, None)
            return x
        st = self.loop(st, f)
        self.scopes.pop()
        for i in mine: st.held.pop(i, None)
        return st
    def s_rfor(self, s, st):
        self.scopes = getattr(self, 'scopes', []); mine = []; self.scopes.append(mine)
        self.temps.append([])
        r = self.ev(s['r'], st, False, True)
        tl = self.temps.pop()
        prv = s['r']
        # the range lives as long as the loop; other temporaries of its initialiser do not
        for x in tl:
            if x != r.lock: st.held.pop(x, None)
            else: mine.append(x)
        v = s['v']
        def f(x):
            t = v.get('t') or ''
            x.env[v['d']] = Val(r.al) if (v.get('ref') or t.endswith('&')) else NONE
            for b in v.get('binds') or []:
                if 'd' in b: x.env[b['d']] = Val(r.al)
            if r.al: self.access(r.al, False, x, s['l'])
            return self.stmt(s['b'], x)
        st = self.loop(st, f)
        self.scopes.pop()
        for i in mine: st.held.pop(i, None)
        return st
    def s_ret(self, s, st):
        self.temps.append([])
        f = self.stack[-1][0]
        rt = f.get('ret') or ''
        byref = rt.endswith('&')
        v = self.ev(s.get('e'), st, False, not byref) if s.get('e') else NONE
        tl = self.temps.pop()
        if v.lock is not None and v.lock[0] == 'l' and v.lock in st.held:
            self.stack[-1][1] = Val(lock=('ret', st.held[v.lock]))
        elif v.al and (byref or self.isptr(norm_t(rt)) and (not norm_t(rt).endswith('*') or addressed(s['e']))):
            self.stack[-1][1] = Val(self.stack[-1][1].al | v.al)
        for x in tl: st.held.pop(x, None)
        return None
    def s_break(self, s, st): return st     # the state at the exit of a loop is that of its entry or of its end
    def s_cont(self, s, st): return None
    def s_throw(self, s, st): self.ev(s.get('a'), st); return None
    def s_try(self, s, st):
        a = self.stmt(s['b'], st.copy())
        for h in s['h']:
            b = h.get('b') if isinstance(h, dict) else None
            if b: a = join(a, self.stmt(b, st.copy()))
        return a
    def s_switch(self, s, st):
        self.ev(s['c'], st)
        r = self.stmt(s['b'], st.copy())
        return join(st, r)
    def s_case(self, s, st): return self.stmt(s['s'], st)
    def s_default(self, s, st): return self.stmt(s['s'], st)

def fieldlock(e):
    while e is not None and e['k'] in ('full', 'tmp', 'cast', 'icast', 'decay'): e = e.get('a')
    return e is not None and e['k'] == 'mem' and norm_t(e.get('t') or '').replace('const ', '', 1).startswith('itlib::data_lock<')
def kids(e):
    out = []
    for k, v in e.items():
        if isinstance(v, dict) and 'k' in v: out.append(v)
        elif isinstance(v, list): out += [x for x in v if isinstance(x, dict) and 'k' in x]
    return out
def reads(e, own, f):
    if isinstance(e, dict):
        if e.get('k') == 'mem' and e.get('own') == own and e.get('f') == f: return True
        return any(reads(x, own, f) for x in e.values())
    if isinstance(e, list): return any(reads(x, own, f) for x in e)
    return False
def addressed(e):
    """does the pointer come from an address taken (not from a stored pointer)?"""
    while e is not None:
        k = e['k']
        if k in ('full', 'tmp', 'cast', 'icast', 'decay'): e = e.get('a'); continue
        if k == 'un': return e['op'] == '&'
        if k == 'call':
            n = (e.get('fn') or {}).get('n', '')
            return n in ('data', 'addressof', 'begin', 'end', 'pfind', 'pfind_if', 'to_address')
        if k == 'cond': return addressed(e['a']) or addressed(e['b'])
        if k == 'bin': return addressed(e['a'])
        return False
    return False

def analyse(P, inlib):
    L = Locks(P, inlib)
    fs = [f for f in P.fns.values() if inlib(f) and ('body' in f or f.get('inits'))]
    called = set()
    def refs(n):
        if isinstance(n, dict):
            fn = n.get('fn')
            if n.get('k') in ('call', 'ctor') and isinstance(fn, dict): called.add(fn['u'])
            for v in n.values(): refs(v)
        elif isinstance(n, list):
            for v in n: refs(v)
    for f in fs: refs(f.get('body')); refs(f.get('inits'))
    def public(f):
        if f.get('anon') or f.get('acc') in ('private', 'protected', 'nonpublic'): return False
        if re.search(r'::impl::|::impl$', f['q']): return False
        return True
    roots = [f for f in fs if public(f) or f['u'] not in called]
    roots = [f for f in roots if '(lambda' not in f['q'] and 'lambda' not in f.get('kind', '')]
    for f in sorted(roots, key=lambda f: f['u']): L.root(f)
    # rules run under the shared lock of the types
    tk = L.guard.get('dynamix::domain::impl::type_registry')
    rules = [f for f in fs if tk and len(f['ps']) == 2 and norm_t(f['ps'][0]['t']).startswith('dnmx_tag_type_mutation *') and norm_t(f['ps'][1]['t']) == 'unsigned long']
    for f in rules: L.root(f, [(tk, 'shared')])
    L.points['entry functions'] = len(roots) + len(rules)
    # order of locks
    for (a, b), (w, q) in sorted(L.orders.items()):
        if (b, a) in L.orders:
            w2, q2 = L.orders[(b, a)]
            v = ('locks are taken in one order', w, q, '%s is taken with %s held here, in the opposite order at %s (%s)' % (b, a, w2, q2), 'order:' + '/'.join(sorted((a, b))))
            if v not in L.viol: L.viol.append(v)
    # locksets of plain fields
    for F, xs in sorted(L.acc.items()):
        if not any(x[0] for x in xs): continue
        ok = False
        for m in {k for _, ls, _, _ in xs for k, _ in ls}:
            if all(any(k == m and (md == 'excl' or not w) for k, md in ls) for w, ls, _, _ in xs): ok = True; break
        if not ok:
            w = next(x for x in xs if x[0])
            L.viol.append(('shared state is changed under one lock', w[2], w[3], '%s::%s is changed, and no lock is held at all of its %d accesses' % (F[0], F[1], len(xs)), 'lockset:%s::%s' % F))
    return L
