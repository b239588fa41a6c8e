#!/usr/bin/env python3
"""mkseed.py ID PROP FILE NEEDS WHAT  (old/new text on stdin separated by a line '====')
Writes seeded/ID/{patch.diff,meta.json}; demo.sh is written by hand."""
import sys, os, json, subprocess, shutil, tempfile
i, prop, f, needs, what = sys.argv[1:6]
old, new = sys.stdin.read().split('\n====\n')
new = new.rstrip('\n'); old = old.rstrip('\n')
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded', i)
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w'])
try:
    p = os.path.join(t, 'w', f)
    s = open(p).read()
    assert s.count(old) == 1, 'old text occurs %d times' % s.count(old)
    open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', t + '/w', 'diff'], text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
    os.rmdir(t)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
print(diff)
