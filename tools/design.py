#!/usr/bin/env python3
"""Rewrite /verif/DESIGN.md from tools/DESIGN.in, the catalogue, the planted bugs and the measured costs."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
import catalog

cost = {}
cp = os.path.join(HERE, 'tools', 'costs.json')
if os.path.exists(cp):
    cost = json.load(open(cp))
for p in catalog.PROPS:        # remember what the last runs took
    e = os.path.join(HERE, 'evidence', p.id + '.json')
    if os.path.exists(e):
        d = json.load(open(e))
        cost.setdefault(p.id, {})[d['tier']] = [round(d['wall_s']), d['coverage']['obligations']]
json.dump(cost, open(cp, 'w'), indent=1, sort_keys=True)

rows = []
for p in catalog.PROPS:
    c = cost.get(p.id, {})
    f = lambda t: '%d s, %d obligations' % tuple(c[t]) if t in c else '-'
    rows.append('### %s %s\n\n%s\n\n* Analysed: %s\n* Domain: %s\n* Beyond the tests: %s\n* Cost: quick %s; thorough %s\n' % (
        p.id, p.title, p.statement, p.expl, p.qtext, p.why, f('quick'), f('thorough')))
fixed = []
for l in open(os.path.join(HERE, 'known-findings.txt')):
    if l.startswith('fixed:'):
        _, pr, sha, what = l.strip().split(' ', 3)
        fixed.append('* %s, `%s`: %s' % (pr.split('=')[1], sha, what))
seeded = ['| bug | property, caught by | needs |', '|---|---|---|']
sd = os.path.join(HERE, 'seeded')
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    seeded.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
t = open(os.path.join(HERE, 'tools', 'DESIGN.in')).read()
t = t.replace('@@TABLE@@', '\n'.join(rows)).replace('@@FIXED@@', '\n'.join(fixed)).replace('@@SEEDED@@', '\n'.join(seeded))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
