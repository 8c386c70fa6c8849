#!/usr/bin/python3
"""Rewrites the generated sections of DESIGN.md (planted bugs, findings) from seeded/*/meta.json, known_findings.json and the
results of trybug.py (/tmp/bugs/matrix.json; rows without new results keep what DESIGN.md says)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read()
m = json.load(open('/tmp/bugs/matrix.json')) if os.path.exists('/tmp/bugs/matrix.json') else {}
old = dict(re.findall(r'^\| (C\d\d\w) \|.*\| ([^|]*) \|$', d, re.M))
rows = ['| planted bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    c = [k for k, v in sorted(m.get(i, {}).items()) if re.match(r'C\d\d$', k) and v == 1]
    rows.append('| %s | %s | %s | %s |' % (i, meta['what_it_breaks'].replace('|', '/'), meta['needs'].replace('|', '/'), ', '.join(c) or old.get(i, '') or 'missed'))
k = json.load(open(V + '/known_findings.json'))['findings']
fixed = ['* %s %s: %s' % (e['property'], e['commit'], e['what']) for e in sorted(k, key=lambda e: e['property']) if e['status'] == 'fixed']
known = ['* %s `%s`: %s.' % (e['property'], e['key'], e['what']) for e in k if e['status'] == 'known']
for name, ls in (('bugs', rows), ('fixed', fixed), ('known', known)):
    d, n = re.subn(r'(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda q: q.group(1) + '\n'.join(ls) + '\n' + q.group(2), d, flags=re.S)
    assert n == 1, name
open(V + '/DESIGN.md', 'w').write(d)
