"""Rewrite the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| plant | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
t = open(here + '/DESIGN.md').read()
a, b = '<!-- plants -->', '<!-- /plants -->'
new = a + '\n' + '\n'.join(rows) + '\n' + b
t = t.replace('PLANTS\n', new + '\n', 1) if a not in t else t[:t.index(a)] + new + t[t.index(b) + len(b):]
open(here + '/DESIGN.md', 'w').write(t)
