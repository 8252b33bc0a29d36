#!/usr/bin/env python3
"""edits.py refactor|mutant [name-pattern]: apply each edit of edits/<kind>.py to a scratch copy and run the whole cross-check
expects: refactor -> nothing reported; mutant -> something reported"""
import sys, os, re, subprocess, shutil, time, runpy
H = os.path.dirname(os.path.abspath(__file__))
kind = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else '.'
E = runpy.run_path(os.path.join(H, 'edits', kind + '.py'))['E']
par = int(os.environ.get('PAR', '3'))
def one(name, subs):
    d = '/tmp/ed-%s-%s' % (kind, re.sub(r'\W', '_', name))
    shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    try:
        for f, a, b in subs:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(a) < 1: return name, 'BADEDIT %s: %r' % (f, a[:60]), ''
            s = s.replace(a, b, 1) if not a.startswith('@@all') else s
            open(p, 'w').write(s)
        t = time.time()
        r = subprocess.run([sys.executable, os.path.join(H, 'whole.py'), d, os.environ.get('BUD', '15')], capture_output=True, text=True, timeout=900)
        o = r.stdout + r.stderr[-1500:]
        if 'PARSE' in o or 'Traceback' in o: v = 'BROKEN'
        elif 'VIOL' in o or 'RULE' in o: v = 'REPORTED'
        elif re.search(r'inconclusive', o): v = 'quiet(undecided)'
        else: v = 'quiet'
        return name, '%s %.0fs' % (v, time.time() - t), o
    finally: shutil.rmtree(d, ignore_errors=True)
from concurrent.futures import ThreadPoolExecutor
jobs = [(n, s) for n, s in E.items() if re.search(pat, n)]
want = {'refactor': 'quiet', 'refactor2': 'quiet', 'refactor3': 'quiet', 'refactor4': 'quiet', 'mutant': 'REPORTED', 'mutant2': 'REPORTED', 'mutant3': 'REPORTED', 'mutant4': 'REPORTED'}[kind]
with ThreadPoolExecutor(par) as ex:
    for n, v, o in ex.map(lambda j: one(*j), jobs):
        ok = v.split()[0] == want
        print('%-4s %-40s %s' % ('ok' if ok else '!!', n, v), flush=True)
        if not ok or '-v' in sys.argv: print('     ' + o.replace('\n', '\n     '), flush=True)
        elif kind.startswith('mutant'):
            for l in o.splitlines():
                if l.startswith(('PROPS', 'RULE')): print('       ' + l[:200])
