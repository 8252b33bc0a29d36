#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the tables of the machinery
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'engine'))
import anchors, rules
NA = {
 'C90': 'a bound on run time costs: whether a lookup takes constant time is a quantity of the execution (and of the standard library), no shape of the code which survives refactoring decides it',
 'C91': 'linearizability quantifies over orders of concurrent histories, which no static argument in reach decides; its structural parts (which lock is held at which access, lock order, no recursion) are claimed as C45 and C46',
}
XC = 'static semantic cross-check: path-sensitive abstract interpretation of each function against its confirmed instance'
checks = []; na = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    x = p in anchors.ANCHORS; r = [n for n, _ in rules.RULES.get(p, [])]
    if not x and not r:
        na.append(dict(property=p, reason=NA.get(p, 'its check is not built yet'))); continue
    tech = '; '.join(([XC] if x else []) + (['declarative rules over the resolved program: ' + ', '.join(r)] if r else []))
    note = []
    if x: note.append('Decides, from the source of the current tree, that every function carrying the property behaves on every followed path (abstract inputs, loops up to a small number of iterations, callees inlined, no solver, nothing is run) exactly as the instance confirmed by reading; functions which are congruent are equal without any bound. Trusts the reading of the confirmed instances and the models of the standard library.')
    if r: note.append('The rules are decided on all paths and call sites of the functions they range over, from the resolved syntax tree and call graph; the tables they use are frozen in the checker.')
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --tier thorough' % p, technique=tech, level='other', level_note=' '.join(note)))
m = dict(version=1, setup_cmd='./build_tool.sh', checks=checks, not_applicable=na,
  notes='No hooks in /repo. fix: commits and the known findings are listed in known-findings.json and described in DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
