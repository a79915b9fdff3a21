#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/plant/results.jsonl (latest run per check and seed)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(root + '/tools/plant/results.jsonl'):
    r = json.loads(l)
    res.setdefault(r['id'], {})[(r['check'], r['seed'])] = r['caught']
rows = ['| planted bug | property | what it needs | caught by (check: seeds caught/run) |', '|---|---|---|---|']
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(root + '/seeded/%s/meta.json' % i))
    by = {}
    for (c, s), ok in res.get(i, {}).items():
        a, b = by.get(c, (0, 0)); by[c] = (a + ok, b + 1)
    txt = ', '.join('%s: %d/%d' % (c, a, b) for c, (a, b) in sorted(by.items())) or 'not run'
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), txt))
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- plants -->\n', '<!-- /plants -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
