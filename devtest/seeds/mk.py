#!/usr/bin/env python3
"""dev aid: (re)creates /verif/seeded/<id> from the table in seeds.py: patch.diff against /repo's HEAD, demo.sh + demo.cpp + stub headers, meta.json; with 'test' confirms each"""
import os, sys, json, shutil, subprocess, tempfile
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); R = '/repo'
sys.path.insert(0, H); from seeds import S
DEMO = r'''#!/bin/bash
# builds the library sources of the current directory with demo.cpp and runs it in a scratch directory
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; W="$(mktemp -d /tmp/dmxdemo.XXXXXX)"; trap 'rm -rf "$W"' EXIT
F="-std=c++17 -g -O0 -w -I$R/code -I$R/v1compat/code -I$D/stubs"
cd "$W"
i=0
for f in "$R"/code/dynamix/*.cpp "$R"/code/dynamix/compat/pmr/*.cpp @V1@ "$D"/demo.cpp; do
  i=$((i+1)); echo "g++ $F -c $f -o $W/o$i.o"
done > cmds
[ -f "$R/code/dnmx/mixin_common_funcs.c" ] && echo "gcc -std=c11 -w -I$R/code -I$D/stubs -c $R/code/dnmx/mixin_common_funcs.c -o $W/mcf.o" >> cmds
xargs -P8 -I{} sh -c '{} || touch failed' < cmds
[ -e failed ] && { echo "does not build"; exit 3; }
g++ *.o -lpthread -o demo || exit 3
timeout 60 ./demo
'''
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
pat = sys.argv[2] if len(sys.argv) > 2 else ''
for name, s in S.items():
    if pat not in name: continue
    d = os.path.join(V, 'seeded', name); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    sh('git', '-C', R, 'worktree', 'prune'); sh('cp', '-a', R + '/.', w)
    for f, old, new in s['edits']:
        p = os.path.join(w, f); t = open(p).read(); assert t.count(old) == 1, (name, f, t.count(old)); open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(open(H + '/pre.hpp').read() + s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO.replace('@V1@', '"$R"/v1compat/code/dynamix/v1compat/*.cpp' if s.get('v1') else '')); os.chmod(d + '/demo.sh', 0o755)
    os.makedirs(d + '/stubs'); 
    for x in ('itlib', 'splat'): shutil.copytree(V + '/stubs/' + x, d + '/stubs/' + x)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    if len(sys.argv) > 1 and sys.argv[1] == 'test':
        a = sh('bash', d + '/demo.sh', cwd=R); b = sh('bash', d + '/demo.sh', cwd=w)
        print(name, s['property'], 'clean', a.returncode, 'patched', b.returncode, 'OK' if a.returncode == 0 and b.returncode not in (0, 3) else 'BAD\n' + a.stdout[-1500:] + '\n---\n' + b.stdout[-1500:], '|', b.stdout.strip()[-100:], flush=True)
    shutil.rmtree(w)
