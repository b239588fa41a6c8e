#!/usr/bin/env python3
"""Rewrites the generated block of DESIGN.md (what the registry contains) from lib/registry.py."""
import os, sys, json
T = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(T, 'lib'))
import registry
title = {}
for l in open(os.path.join(T, 'properties.jsonl')):
    d = json.loads(l); title[d['id']] = d['title']
out = []
for p, c in sorted(registry.CHECKS.items()):
    pr = [u for u in c.units if u.kind in ('full', 'cut')]
    st = [u for u in c.units if u.standin]
    fz = [u for u in c.units if u.kind in ('bounded', 'fuzz') and not u.standin]
    out.append('### %s %s\n' % (p, title[p]))
    out.append('- proved functions: ' + ', '.join(sorted({f for u in pr for f in u.funcs})))
    out.append('- units: ' + ', '.join('%s%s' % (u.name, '' if u.kind == 'full' else ' (loop invariants)') for u in pr))
    rep = sorted({x[0] for u in pr for x in u.replace})
    if rep: out.append('- callees replaced by their contract: ' + ', '.join(rep))
    for u in st: out.append('- BOUNDED stand-in %s: %s; %s' % (u.name, ', '.join(u.funcs), u.bound))
    if fz: out.append('- not counted as proof, used to find failing inputs, and as labelled fallback when an annotation no longer fits: ' + '; '.join('%s (%s)' % (u.name, u.bound) for u in fz))
    sub = sorted({x[1] for u in c.units for x in u.subst})
    if sub: out.append('- rewritten in the scratch copy: ' + ', '.join('`%s`' % x for x in sub))
    for a in c.assumptions: out.append('- assumes: ' + a)
    for a in c.trusted: out.append('- trusts: ' + a)
    out.append('')
f = os.path.join(T, 'DESIGN.md'); s = open(f).read()
a, b = '<!-- generated: tools/mkdesign.py -->\n', '<!-- end generated -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(f, 'w').write(s[:i] + '\n'.join(out) + '\n' + s[j:])
