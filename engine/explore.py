"""Exploration of one function along every decision list (depth first, replayed)."""
import time, collections
from terms import *
from state import *
import state as _state
from interp import Interp, norm_t

class Restart(Exception): pass

class Ctl2:
    """decision controller shared by the runs of one pair; verifies that replays meet the same decisions"""
    def __init__(self, prefix): self.prefix = prefix; self.taken = []; self.opts = []
    def choose(self, n, key=None):
        i = len(self.taken)
        if i < len(self.prefix):
            c, k = self.prefix[i]
            if k != (n, key): raise Restart()
        else: c = 0
        self.taken.append(c); self.opts.append((n, key))
        return c
    def next(self):
        t = list(zip(self.taken, self.opts))
        while t:
            c, k = t.pop()
            if c + 1 < k[0]: return t + [(c + 1, k)]
        return None

class Walk:
    """random decisions, drawn with inclinations which are fixed per walk (equalities, orderings, sizes)"""
    def __init__(self, rnd):
        self.rnd = rnd; self.taken = []; self.opts = []
        self.eq = rnd.choice((.15, .5, .5, .85)); self.rg = rnd.choice((.2, .5, .8)); self.sz = rnd.choice((0, 0, 1, 2))
    def choose(self, n, key=None):
        r = self.rnd
        if n == 2 and key and key[1] == ((0, 0),): c = 0 if r.random() < self.eq else 1
        elif n == 2 and key and isinstance(key[1], tuple) and isinstance(key[1][0], tuple): c = 0 if r.random() < self.rg else 1
        else:
            c = r.randrange(n)
            for _ in range(self.sz): c = max(c, r.randrange(n))
        self.taken.append(c); self.opts.append((n, key))
        return c

class Result:
    __slots__ = ('kind', 'val', 'why')
    def __init__(self, kind, val=None, why=None): self.kind = kind; self.val = val; self.why = why

def bind_params(I, f):
    """symbolic arguments"""
    fr_args = []
    this = None
    if f.get('cls') and not f.get('static') and f.get('kind') in ('method', 'ctor', 'dtor', 'conv', None) and f.get('inst', True) and is_instance(f):
        t = mk('param', 'this'); mark_ptr(t); _state.NONNULL.add(t); this = (t, ())
        if f.get('kind') == 'ctor': I.S.cls.setdefault(t, norm_t(f['cls']))
    for i, p in enumerate(f['ps']):
        nm = 'p%d' % i
        if p.get('ref'):
            t = mk('param', '&' + nm); mark_ptr(t); _state.NONNULL.add(t); fr_args.append((t, ()))
        elif I.is_class(p['t']):
            fr_args.append((mk('param', nm), ()))
        else:
            pt = norm_t(p['t'])
            t = mk('param', nm + ('*' if pt.endswith(('*', ')')) else ''))
            unmark_ptr = not (pt.endswith('*') or pt.endswith(')') )
            if not unmark_ptr: mark_ptr(t)
            if pt.startswith('unsigned') or pt == 'bool': mark_uns(t)
            if pt == 'bool': _state.BOOLT.add(t)
            r = I.fresh(); I.store((r, ()), t); fr_args.append((r, ()))
    return this, fr_args

def is_instance(f):
    return f.get('kind') in ('method', 'ctor', 'dtor', 'conv') and not f.get('static')

def execute(I, f):
    I.topu = f['u']; I.topq = f['q']
    try:
        this, args = bind_params(I, f)
        t = norm_t(f['ret']) if f.get('ret') and not f['ret'].endswith('&') else None
        retloc = None
        if t and t != 'void' and I.is_class(t):
            retloc = (mk('ret'), ()); I.S.cls[retloc[0]] = t
        byval = [(l, p['t']) for p, l in zip(f['ps'], args) if l is not None and not p.get('ref') and I.is_class(p['t'])]
        try: v = I.inline(f, args, this, retloc, None)
        except CxxThrow: end_params(I, byval); raise
        end_params(I, byval)
        if retloc is not None:
            if v is not None and v != 'placed': I.put(retloc, v, t)
            v = None
        if isinstance(v, Obj): v = locptr(v.loc)
        if isinstance(v, T): v = I.norm(v)
        return Result('ret', v)
    except CxxThrow as e: return Result('throw', e.cls if not e.cls.startswith('?user') else I.norm(e.val))
    except Terminate as e: return Result('terminate', None, e.why)
    except Bound: return Result('bound')
    except UB as e: return Result('ub', None, e.why)
    except Diverge: return Result('diverge')
    except Dead: return Result('dead')

def end_params(I, ps):
    # arguments passed by value end with the call
    for l, t in reversed(ps):
        I.destroy(l, t)
        I.S.dead.add(l[0])

def explore_single(prog, f, U=1, maxpaths=200, budget=5.0):
    """(stats, give reasons) of exploring one function alone"""
    st = collections.Counter(); why = collections.Counter()
    t0 = time.time()
    prefix = []
    unkc = collections.Counter()
    restarts = 0
    while prefix is not None:
        ctl = Ctl2(prefix)
        I = Interp(prog); I.U = U; I.ctl = ctl
        try:
            r = execute(I, f); st[r.kind] += 1
            for k, v in I.S.cells.items():
                if isinstance(v, T) and v.taint: unkc[find_unk(v)] += 1
            if isinstance(r.val, T) and r.val.taint: unkc[find_unk(r.val)] += 1
            if r.kind == 'terminate': why['TERM ' + r.why] += 1
            for e in I.S.trace:
                if e[0] == 'ub': why['UB ' + str(e[1])] += 1
        except Give as e:
            st['give'] += 1; why[str(e)] += 1
        except Restart:
            restarts += 1
            if restarts > 8: st['restart'] += 1; break
            prefix = []; st.clear(); continue
        prefix = ctl.next()
        st['paths'] += 1
        if st['paths'] >= maxpaths or time.time() - t0 > budget:
            st['cut'] += 1; break
    return st, why, unkc

def find_unk(v):
    s = set(); terms_in(v, s)
    for t in s:
        if t.op == 'unk': return str(t.args[0])
    return '?'
