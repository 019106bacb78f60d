#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (from DESIGN.in.md, properties.jsonl, checks.json, known-findings.json, seeds)."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = json.load(open(H + '/checks.json'))
how = json.load(open(H + '/tools/how.json'))
caught = json.load(open(H + '/tools/seeds/caught.json')) if os.path.exists(H + '/tools/seeds/caught.json') else {}
t = []
for p in props:
    c = checks.get(p['id'], {})
    t.append('**%s %s.** %s\n*Bounds:* %s. *Cost:* %s.' % (p['id'], p['title'], how[p['id']][0],
             c.get('bounds', 'x') if c.get('bounds') != 'x' else 'no check built yet', how[p['id']][1]))
kf = json.load(open(H + '/known-findings.json'))
fx = '\n'.join('* ' + f for f in kf.get('fixed', []))
s = ['| id | property | what it needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    s.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('\n', ' '), caught.get(i, 'not run')))
o = open(H + '/tools/DESIGN.in.md').read()
o = o.replace('@@TABLE@@', '\n\n'.join(t)).replace('@@FIXES@@', fx).replace('@@SEEDS@@', '\n'.join(s))
open(H + '/DESIGN.md', 'w').write(o)
