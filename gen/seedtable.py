#!/usr/bin/env python3
# writes the table of planted bugs of DESIGN.md (between the markers); the reporting place comes from devtest/seeds/found.json (made by devtest/seeds/found.sh)
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try: F = json.load(open(H + '/devtest/seeds/found.json'))
except OSError: F = {}
out = ['| planted bug | property | what it needs | found by |', '|---|---|---|---|']
for i in sorted(os.listdir(H + '/seeded'), key=lambda i: (json.load(open(H + '/seeded/%s/meta.json' % i))['property'], i)):
    m = json.load(open(H + '/seeded/%s/meta.json' % i))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], F.get(i, 'cross-check')))
p = H + '/DESIGN.md'; s = open(p).read(); a = s.index('<!-- seeds -->'); b = s.index('<!-- /seeds -->')
open(p, 'w').write(s[:a] + '<!-- seeds -->\n' + '\n'.join(out) + '\n' + s[b:])
