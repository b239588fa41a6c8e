#!/usr/bin/env python3
"""one.py PROP UNIT [DEFS…]: run one unit and print its result"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import registry, driver
os.environ.setdefault('VP_SLOW', '1')
c = registry.CHECKS[sys.argv[1]]; u = c.by_name[sys.argv[2]]
u.defs += sys.argv[3:]
s = driver.Session('one', 'quick', time.time() + 1000)
try:
    gb = None if u.kind == 'fuzz' else s.build(u)
    r = s.solve(u, gb)
    print(r.status, '%d/%d' % (r.ok, r.total), r.backend, 'solver %.1f wall %.1f' % (r.solver_s, r.wall), r.note)
    r.failed.sort(key=lambda f: '.assertion.' not in f['property'])
    for f in (r.failed + r.unwind_failed)[:15]:
        print('  ', f['property'], f['description'], f['where'], f['function'])
    if r.draws: print(r.draws[:50])
finally:
    s.close()
