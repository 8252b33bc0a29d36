#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--tree DIR]: decide one property of /repo from its source."""
import sys, os, json, time, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--tree', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time(); pid = a.property
    import verdict, anchors, rules
    V = verdict.Verdict(a.tree)
    if V.R.failed: print('the confirmed tree does not parse:', V.R.failed); return 3
    lost = {k: v for k, v in V.C.failed.items() if not k.startswith('drv/')}
    for k in V.C.failed:
        if k not in lost: print('note: %s does not compile against this tree, what it instantiates is not decided: %s' % (k, V.C.failed[k][-300:]))
    if lost:
        print('%s does not parse: %s' % (a.tree, {k: v[-400:] for k, v in V.C.failed.items()})); return 3
    thorough = a.tier == 'thorough'
    viol = []; cov = {}
    if pid in anchors.ANCHORS:
        d = V.decide(pid, anchors.ANCHORS[pid], budget=40.0 if not thorough else 150.0, U=2 if not thorough else 3, wall=420.0 if not thorough else 780.0)
        viol += d['violations']; cov['cross_check'] = d
    rs = rules.run(pid, V)
    for r in rs: viol += r['violations']
    cov['rules'] = [{k: v for k, v in r.items()} for r in rs]
    known = json.load(open(os.path.join(HERE, 'known-findings.json')))
    lines = []; rest = []
    for v in viol:
        k = next((k for k in known['findings'] if k['property'] == pid and k['key'] == v.get('key')), None)
        if k: lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else: rest.append(v)
    for l in sorted(set(lines)): print(l)
    n = sum(r['instances'] for r in rs)
    d = cov.get('cross_check')
    ob = (d['anchors'] if d else 0) + n
    dis = ob - len(viol) - (d['inconclusive'] + d['gone'] if d else 0)
    print('property %s (%s): %d translation units, %d functions loaded' % (pid, a.tier, len(V.C.units), len(V.C.fns)))
    if d: print('  cross-check: %d functions carry it: %d congruent to the confirmed instance, %d explored (%d paths), %d undecided, %d without counterpart' % (d['anchors'], d['congruent'], d['explored'], d['paths'], d['inconclusive'], d['gone']))
    for r in rs: print('  rule %s: %d instances, %d violations' % (r['rule'], r['instances'], len(r['violations'])))
    if not a.no_evidence:
        ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', wall_s=round(time.time() - t0, 2),
                  coverage=dict(explanation='static cross-check of every function which carries the property against its confirmed instance (path-sensitive abstract interpretation, value numbering, no solver, no execution) and declarative rules over the resolved syntax of the current tree',
                                obligations=ob, discharged=dis, units=V.C.units, functions_loaded=len(V.C.fns), **cov))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if rest:
        p = os.path.join(HERE, 'evidence', pid + '.violation.json')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        json.dump(rest, open(p, 'w'), indent=1, default=str)
        for v in rest[:8]:
            print('  %s %s: %s' % (v['rule'], v.get('at'), v.get('function', '')))
            print('     %s\n     confirmed: %s\n     found: %s' % (v.get('what'), v.get('confirmed', ''), v.get('found', '')))
            for x in (v.get('decisions') or [])[:10]: print('       when', x)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0
if __name__ == '__main__':
    sys.exit(main())
