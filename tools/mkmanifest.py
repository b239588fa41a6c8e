#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and the property list."""
import sys, os, json
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(R, 'lib'))
import registry
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
ids = [p['id'] for p in props]
NA = json.load(open(os.path.join(R, 'tools', 'not_applicable.json')))
checks = []
for i in ids:
    c = registry.CHECKS.get(i)
    if not c: continue
    proof = [u for u in c.units if u.kind in ('full', 'cut')]
    stand = [u for u in c.units if u.kind in ('bounded', 'fuzz') and u.standin]
    note = 'contracts on %s; all inputs, loop invariants instead of bounds' % ', '.join(sorted({f for u in proof for f in u.funcs}))
    if stand: note += '. Bounded, not counted as proved: ' + '; '.join('%s (%s)' % (', '.join(u.funcs), u.bound) for u in stand)
    note += '. Assumes: ' + '; '.join(c.assumptions) if c.assumptions else ''
    d = dict(property=i, quick_cmd='bin/check ' + i, evidence_file='evidence/%s.json' % i,
             technique='contract-based deductive verification (VCs by goto-cc/CBMC from the real source, SAT/SMT back ends)',
             level='proof', level_note=note)
    if any(u.kind in ('bounded', 'fuzz') for u in c.units): d['thorough_cmd'] = 'bin/check %s thorough' % i
    checks.append(d)
na = [dict(property=i, reason=NA.get(i, 'no check built yet')) for i in ids if i not in registry.CHECKS]
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: contracts live in /verif/units, which include the real sources; loop invariants are attached to a scratch copy on every run (lib/annotate.py).')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
