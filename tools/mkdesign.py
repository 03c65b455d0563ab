#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the per-property table and the seeded
bugs' table filled in from properties.jsonl, tools/claims.py and seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(V + '/tools/claims.py').read(), ns)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
how = {}
for part in re.split(r'^## ', open(V + '/tools/design_props.md').read(), flags=re.M)[1:]:
    head, body = part.split('\n', 1)
    how[head.strip()] = body.strip()
out = []
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in ns['NA']:
        out.append('Not applicable: %s.\n' % ns['NA'][i])
        continue
    if i not in ns['CLAIMS']:
        out.append('No check.\n')
        continue
    t, note = ns['CLAIMS'][i]
    out.append(how[i] + '\n')
    out.append('*Method:* %s. *Covers and assumes:* %s\n' % (t, note))
seeds = ['| bug | property | needs | what it breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
s = open(V + '/tools/design.md').read()
s = s.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(s)
