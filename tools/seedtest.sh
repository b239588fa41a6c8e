#!/bin/bash
# seedtest.sh ID...: apply each planted bug in /repo, build, run its demo (must fail) and its property's check (must alarm), then restore
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 3; }
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo; timeout 300 bash $d/demo.sh >/dev/null 2>&1); a=$?
  git -C /repo apply $d/patch.diff || continue
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || echo "BUILD FAILS"
  (cd /repo; timeout 300 bash $d/demo.sh >/dev/null 2>&1); b=$?
  [ -n "$FULL" ] && { bash /opt/vp/test.sh /tmp/seed_tests.json >/dev/null 2>&1; t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_tests.json'))
print('tests', str(o)[:200])
P
); }
  out=$(cd /verif; timeout 900 bin/check $p 2>&1); c=$?
  git -C /repo checkout -- .
  echo "$i $p demo clean=$a patched=$b check=$c $(echo "$out" | grep -c VIOLATION) violations, $(echo "$out" | grep -c no-failing-input) without input $t"
done
bash /opt/vp/build.sh >/dev/null 2>&1
