"""Extraction driver: runs the clang based extractor over a source tree and loads the result."""
import json, os, subprocess, hashlib, concurrent.futures, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = os.path.join(VERIF, 'build', 'dmx-extract')
STUBS = os.path.join(VERIF, 'stubs')
DRV = os.path.join(VERIF, 'drivers')
CACHE = os.path.join(VERIF, 'build', 'cache')

def ensure_tool():
    if not os.path.exists(TOOL):
        r = subprocess.run([os.path.join(VERIF, 'build_tool.sh')], capture_output=True, text=True)
        if r.returncode: raise SystemExit('cannot build the extractor: ' + r.stderr[-2000:])

def units(tree):
    """(name, path, flags) of every translation unit analysed"""
    import glob
    base = ['-DNDEBUG', '-I' + tree + '/code', '-I' + tree + '/v1compat/code', '-I' + STUBS, '-Wno-everything']
    cxx = ['-std=c++17'] + base
    us = []
    for p in sorted(glob.glob(tree + '/code/dynamix/*.cpp')): us.append(('code/' + os.path.basename(p), p, cxx))
    us.append(('pmr/memory_resource.cpp', tree + '/code/dynamix/compat/pmr/memory_resource.cpp', cxx + ['-D_LIBCPP_VERSION=15000']))
    for p in sorted(glob.glob(tree + '/v1compat/code/dynamix/v1compat/*.cpp')): us.append(('v1/' + os.path.basename(p), p, cxx))
    us.append(('c/mixin_common_funcs.c', tree + '/code/dnmx/mixin_common_funcs.c', ['-std=c11'] + base))
    for p in sorted(glob.glob(DRV + '/*.cpp')): us.append(('drv/' + os.path.basename(p), p, cxx + (['-D_LIBCPP_VERSION=15000'] if os.path.basename(p).startswith('pmr') else [])))
    for p in sorted(glob.glob(DRV + '/*.c')): us.append(('drv/' + os.path.basename(p), p, ['-std=c11'] + base))
    return us

def tree_hash(tree):
    h = hashlib.sha1()
    for root in (tree + '/code', tree + '/v1compat/code', STUBS, DRV):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.h', '.cpp', '.c', '.ipp')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode()); h.update(open(p, 'rb').read())
    h.update(open(TOOL, 'rb').read(1 << 20))
    return h.hexdigest()[:16]

def extract_one(a):
    name, path, flags, out, tree = a
    r = subprocess.run([TOOL, '-root', tree, '-root', STUBS, '-root', DRV, '-o', out, path, '--'] + flags, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        return name, (r.stderr or 'no output')[-3000:]
    return name, None

class Prog:
    """merged program database of one tree"""
    def __init__(self, tree):
        self.tree = tree
        ensure_tool()
        d = os.path.join(CACHE, tree_hash(tree) + '-' + hashlib.sha1(tree.encode()).hexdigest()[:6])
        us = units(tree)
        self.failed = {}
        marker = os.path.join(d, 'ok')
        if not os.path.exists(marker):
            import shutil
            os.makedirs(CACHE, exist_ok=True)
            w = tempfile.mkdtemp(dir=CACHE) # several checks may do this at the same time: whoever finishes first provides it
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for name, err in ex.map(extract_one, [(n, p, f, os.path.join(w, n.replace('/', '_') + '.json'), tree) for n, p, f in us]):
                    if err: self.failed[name] = err
            for n, p, f in us:  # (once more, alone: the machine may have been short of memory)
                if n in self.failed and 'error:' not in self.failed[n]:
                    name, err = extract_one((n, p, f, os.path.join(w, n.replace('/', '_') + '.json'), tree))
                    if err: self.failed[n] = err
                    else: del self.failed[n]
            json.dump(self.failed, open(os.path.join(w, 'ok'), 'w'))
            try: os.rename(w, d)
            except OSError: shutil.rmtree(w, ignore_errors=True)
        self.failed = json.load(open(marker))
        self.fns = {}; self.byq = {}; self.decls = {}; self.recs = {}; self.globals = {}; self.unsupported = set()
        self.units = [n for n, _, _ in us]
        for n, p, f in us:
            if n in self.failed: continue
            j = json.load(open(os.path.join(d, n.replace('/', '_') + '.json')))
            uid = n
            for fn in j['functions']:
                fn['tu'] = n
                if fn['u'] not in self.fns or ('body' in fn and 'body' not in self.fns[fn['u']]):
                    if fn['u'] not in self.fns: self.byq.setdefault(fn['q'], []).append(fn)
                    self.fns[fn['u']] = fn
                elif 'body' in fn and n.startswith('drv') and False: pass
            for x in j['decls']:
                o = self.decls.get(x['u'])
                if o is None or (x['def'] and not o['def']): x['tu'] = n; self.decls[x['u']] = x
            for x in j['records']: self.recs.setdefault(x['t'], x)
            for x in j['globals']:
                o = self.globals.get(x['q'])
                if o is None or ('init' in x and 'init' not in o): x['tu'] = n; self.globals[x['q']] = x
            self.unsupported.update(j['unsupported'])
        for q, g in self.globals.items():
            if 'init' not in g: continue
            t = g.get('t') or ''
            f = dict(u='ginit:' + q, q=q + '#init', n=q.split('::')[-1], kind='func', file=g['file'], l=g['l'], ps=[], ret=t, tu=g['tu'], ginit=True,
                     body=dict(k='block', l=g['l'], s=[dict(k='ret', l=g['l'], e=g['init'])]))
            self.fns[f['u']] = f; self.byq.setdefault(f['q'], []).append(f)
        self.recq = {}
        for r in self.recs.values(): self.recq.setdefault(r['q'], r)
    def rel(self, f): return os.path.relpath(f, self.tree) if f.startswith(self.tree) else f
