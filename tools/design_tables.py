#!/usr/bin/env python3
"""rewrites the two generated tables of DESIGN.md (seeds and size-bounded entries) from the working tree"""
import json, glob, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.config import CHECKS
rows = ['| planted change | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    c = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], c(m['what_it_breaks']), c(m['needs'])))
b = ['| property | entry | bound |', '|---|---|---|']
for k in sorted(CHECKS):
    for e, t in sorted(CHECKS[k].get('size_bounded', {}).items()):
        b.append('| %s | %s | %s |' % (k, e, t))
p = V + '/DESIGN.md'
s = open(p).read()
for tag, t in (('SEEDS', rows), ('BOUNDS', b)):
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, '\n'.join(t), tag), s, flags=re.S)
open(p, 'w').write(s)
