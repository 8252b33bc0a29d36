#!/usr/bin/env python3
"""whole.py TREE [budget]: cross-check of every function of a tree at once; prints what differs and the properties which would report it"""
import sys, os, re, time, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import verdict, anchors, rules
t0 = time.time()
V = verdict.Verdict(sys.argv[1]); b = float(sys.argv[2]) if len(sys.argv) > 2 else 40.
if V.C.failed: print('PARSE', {k: v[-300:] for k, v in V.C.failed.items()}); sys.exit(3)
d = V.decide('*', ['.'], budget=b, wall=400.)
st = {}
for e in d['functions']: st.setdefault(e['result'], []).append(e)
mods = getattr(V, 'mres', {})
print('%.1fs anchors %d congruent %d explored %d paths %d' % (time.time() - t0, d['anchors'], d['congruent'], d['explored'], d['paths']))
for (f, g), r in mods.values(): print('  %-12s %s paths %s %s' % (r['status'], f['q'], r.get('paths'), r.get('why') or ''))
for e in d['functions']:
    if e['result'] == 'no counterpart': print('  GONE', e['function'])
for v in d['violations']:
    print('VIOL', v['function'], v['at'], '|', v['what'], '|', v['confirmed'][:150], '|', v['found'][:150])
    for x in (v.get('decisions') or [])[:6]: print('      when', str(x)[:150])
ps = set()
bad = {v['function'] for v in d['violations']}
for p, pats in anchors.ANCHORS.items():
    qs = {f['q'] for f in V.closure(V.select(pats, p))}
    if qs & bad: ps.add(p)
direct = sorted(p for p, pats in anchors.ANCHORS.items() if {f['q'] for f in V.select(pats, p)} & bad)
if bad: print('PROPS direct', ' '.join(direct), '| through callees', ' '.join(sorted(ps - set(direct))))
known = {(k['property'], k['key']) for k in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known-findings.json')))['findings']}
for p in sorted(set(rules.RULES)):
    for r in rules.run(p, V):
        for v in r['violations']:
            if (p, v.get('key')) not in known: print('RULE', p, r['rule'], v.get('at'), v.get('what'))
