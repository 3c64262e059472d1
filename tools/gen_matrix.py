#!/usr/bin/env python3
"""gen_matrix.py: rewrite the table of planted bugs in DESIGN.md."""
import glob, json, re
rows = ['| property | planted bugs: what they need |', '|---|---|']
d = {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    d.setdefault(m['property'], []).append((f.split('/')[-2], m['needs']))
for p in sorted(d):
    rows.append('| %s | %s |' % (p, '; '.join('`%s` (%s)' % x for x in d[p])))
p = '/verif/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
