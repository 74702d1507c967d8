#!/usr/bin/env python3
"""regenerates DESIGN.md from design_head.md, the checks' own descriptions, the findings file
and the planted changes"""
import ast
import glob
import json
import os

H = os.path.dirname(os.path.abspath(__file__))
out = [open(H + '/design_head.md').read().rstrip(), '']
props = [json.loads(l) for l in open(H + '/properties.jsonl') if l.strip()]
na = json.load(open(H + '/not_applicable.json'))
notes = json.load(open(H + '/design_notes.json'))
find = [json.loads(l) for l in open(H + '/KNOWN_FINDINGS.jsonl') if l.strip()]
out.append('## Properties\n')
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in na:
        out.append('Not applicable: %s\n' % na[i])
        continue
    t = ast.parse(open('%s/checks/%s.py' % (H, i.lower())).read())
    v = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in (
                'EXPLANATION', 'OUTSIDE', 'ASSUMPTIONS'):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    out.append(v['EXPLANATION'] + '\n')
    n = notes.get(i, {})
    if n.get('oracle'):
        out.append('*Oracle.* ' + n['oracle'] + '\n')
    if n.get('bounds'):
        out.append('*Bounds.* ' + n['bounds'] + '\n')
    out.append('*Outside the bounds.* ' + v.get('OUTSIDE', '') + '.\n')
    if v.get('ASSUMPTIONS'):
        out.append('*Assumed.* ' + '; '.join(v['ASSUMPTIONS']) + '.\n')
    if n.get('cost'):
        out.append('*Cost.* ' + n['cost'] + '\n')
    if n.get('why'):
        out.append('*Beyond the tests.* ' + n['why'] + '\n')
    fs = [f for f in find if f['property'] == i]
    if fs:
        out.append('*Findings.*')
        for f in fs:
            out.append('- ' + (f['text'] if f['status'] == 'fixed' else
                               'known finding (not repaired): ' + f['what']))
        out.append('')
out.append('## Planted changes and the checks that catch them\n')
out.append('Each of these builds and passes the stable tests; the demonstration in its folder '
           'fails with it and passes without.\n')
out.append('| change | property | needs | caught by |\n|---|---|---|---|')
caught = json.load(open(H + '/design_caught.json'))
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d))
    b = d.split('/')[-2]
    out.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], caught.get(b, 'not run yet')))
out.append('')
open(H + '/DESIGN.md', 'w').write('\n'.join(out))
