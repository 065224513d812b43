#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written text below plus the per-property bounds of engine/spec.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
spec = json.load(open(V + '/engine/spec.json'))
HEAD = open(V + '/tools/design_head.md').read()
HOW = {}
for block in open(V + '/tools/design_how.md').read().split('\n## ')[1:]:
    k, _, t = block.partition('\n')
    HOW[k.strip()] = t.strip()
out = HEAD.rstrip() + '\n\n## Properties\n'
for p in props:
    i = p['id']
    out += '\n### %s %s\n\n' % (i, p['title'])
    out += HOW.get(i, '') + '\n'
    if i in spec:
        out += '\n- Bounds: %s.\n- Outside: %s.\n' % (spec[i]['bounds'], spec[i]['outside'])
        for a in spec[i]['assumptions']:
            out += '- Assumption: %s.\n' % a
out += '\n' + open(V + '/tools/design_tail.md').read()
T = V + '/tools/detected.txt'
if os.path.exists(T):
    out += '\n| planted change | needs | result of the quick check |\n|---|---|---|\n'
    for l in open(T):
        i, _, r = l.strip().partition(' ')
        m = V + '/seeded/%s/meta.json' % i
        if os.path.exists(m):
            out += '| %s | %s | %s |\n' % (i, json.load(open(m))['needs'], r)
open(V + '/DESIGN.md', 'w').write(out)
