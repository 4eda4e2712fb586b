"""Rewrites the 'Planted bugs' table at the end of DESIGN.md from
seeded/*/meta.json and tools/caught.txt (lines: id checks...)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(here, 'tools', 'caught.txt')):
    w = l.split()
    if w:
        caught[w[0]] = ', '.join(w[1:])
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
k = s.find('## Planted bugs')
s = s[:k] if k >= 0 else s
out = ['## Planted bugs', '',
       'Each passes the repository\'s tests; caught = the quick check reports '
       'a VIOLATION on', 'the changed tree (own property first).', '',
       '| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'],
                                          caught.get(d, m['property'])))
open(p, 'w').write(s + '\n'.join(out) + '\n')
