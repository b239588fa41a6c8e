#!/usr/bin/env python3
"""prep.py PROP UNIT OUT.gb: build one unit's goto binary (for experiments)"""
import sys, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import registry, driver, time
c = registry.CHECKS[sys.argv[1]]; u = c.by_name[sys.argv[2]]
for d in sys.argv[4:]: u.defs.append(d)
s = driver.Session('prep', 'quick', time.time() + 1000)
gb = s.build(u); shutil.copy(gb, sys.argv[3]); print(' '.join(s.cbmc_cmd(u, sys.argv[3], u.backends[0]))); s.close()
