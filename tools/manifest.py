#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and engine/spec.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l) for l in open(V + '/properties.jsonl')]
spec = json.load(open(V + '/engine/spec.json'))
NA = {'C31': 'A probabilistic statement about long runs with pseudo-random draws: for every bound some draws miss the optimum, '
             'so no assertion over all draws holds, and a solver over symbolic draws cannot weigh their probability.'}
checks = []
for p in ids:
    i = p['id']
    if i in NA:
        continue
    sp = spec[i]
    checks.append(dict(
        property=i, quick_cmd='python3 check.py %s --tier quick' % i,
        thorough_cmd='python3 check.py %s --tier thorough' % i,
        technique='bounded symbolic model checking of the compiled MIR (Kani/CBMC, SAT solver CaDiCaL)',
        level='other',
        level_note='Holds for all values within these bounds: %s. Outside: %s. Trusts CBMC, CaDiCaL, the Kani translation%s and '
                   'the symbolic stand-in of the rand crate (any value of the documented range).' %
                   (sp['bounds'], sp['outside'], ''.join('; ' + a for a in sp['assumptions']))))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='No hooks in /repo: every check drives the public API. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
