#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md: repaired defects, planted bugs"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(os.path.join(H, 'DESIGN.md')).read()
k = json.load(open(os.path.join(H, 'known-findings.json')))
rows = ['| property | commit | what failed |', '|---|---|---|']
for x in k['fixed']:
    m = re.match(r'fixed: property=(C\d\d) (\w+) (.*)', x)
    rows.append('| %s | %s | %s |' % m.groups())
rows.append('')
rows.append('Known findings not repaired: %s.' % (len(k['findings']) or 'none'))
c = json.load(open(os.path.join(H, 'tools', 'caught.json'))) if os.path.exists(os.path.join(H, 'tools', 'caught.json')) else {}
bugs = ['| planted bug | check | what it breaks | caught |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', i, 'meta.json')))
    r = c.get(i, {})
    bugs.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), ', '.join('%s (seed %s)' % ('yes' if v else 'no', s) for s, v in sorted(r.items())) or '?'))


def fill(d, tag, lines):
    b, e = '<!-- %s -->' % tag, '<!-- end of %s -->' % tag
    t = b + '\n' + '\n'.join(lines) + '\n' + e
    if b in d:
        return d[:d.index(b)] + t + d[d.index(e) + len(e):]
    return d.replace('\n%s\n' % tag.upper(), '\n' + t + '\n')


d = fill(d, 'fixed', rows)
d = fill(d, 'planted', bugs)
open(os.path.join(H, 'DESIGN.md'), 'w').write(d)
