#!/usr/bin/env python3
"""Development helper: writes the table of planted bugs into DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(H + '/tools/detection.json'))
rows = ['| planted bug | needs | checks |', '|---|---|---|']
for k in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % k))
    r = d.get(k, {})
    rows.append('| %s | %s | %s |' % (k, m['needs'].replace('|', '/'), ', '.join('%s %s' % (c, s) for c, s in sorted(r.items()))))
p = H + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'<!-- detection -->.*?<!-- /detection -->', lambda _: '<!-- detection -->\n' + '\n'.join(rows) + '\n<!-- /detection -->', t, flags=re.S)
open(p, 'w').write(t)
