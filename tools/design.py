"""Fills the findings and seeds sections of DESIGN.md from known_findings.json and seeded/."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(V + '/known_findings.json'))
fixed, opn = [], {}
for e in kf:
    what = re.sub(r'^fixed: property=\S+ \S+ ', '', e['what'])
    if e['status'] == 'fixed':
        fixed.append('* %s `%s` %s' % (e['property'], e['commit'], what))
    else:
        k = (e['property'], e['rule'], what.split(' (get_file')[0].split(' (read_')[0])
        opn.setdefault(k, []).append(e['key'])
op = ['* %s (%s%s) %s' % (p, r, ', %d scenarios' % len(v) if len(v) > 1 else '', w) for (p, r, w), v in opn.items()]
caught = {}
p = V + '/tools/seeds.json'
if os.path.exists(p):
    caught = json.load(open(p))
seeds = ['| seed | property | needs | what it breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    seeds.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), ' '.join(caught.get(i, [])) or m['property']))
s = open(V + '/DESIGN.md').read()


def put(s, name, lines):
    b, e = '<!-- %s -->' % name, '<!-- /%s -->' % name
    body = b + '\n' + '\n'.join(lines) + '\n' + e
    if b in s:
        return s[:s.index(b)] + body + s[s.index(e) + len(e):]
    return re.sub(r'(?m)^%s$' % name, lambda m: body, s)


for n, l in (('FIXED', fixed), ('OPEN', op), ('SEEDS', seeds)):
    s = put(s, n, l)
open(V + '/DESIGN.md', 'w').write(s)
