#!/bin/bash
# Builds /repo with each named seeded patch applied and runs its stable tests, then undoes the patch.
for id in "$@"; do
  p=/verif/seeded/$id/patch.diff
  git -C /repo apply "$p" || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; then
    timeout 300 bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
    python3 - "$id" <<'P'
import json,sys
o=json.load(open('/tmp/seedtest.json')); b=json.load(open('/opt/vp/BASELINE.json'))
missing=[t for t in b['stable'] if t not in o['passed']]
print(sys.argv[1], 'tests ok' if not missing else 'FAILS %s'%missing)
P
  else echo "$id: build fails"; tail -3 /tmp/seedbuild.log; fi
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  (cd /verif && ./check.sh $prop | tail -1 | cut -c1-120)
  git -C /repo checkout -q -- .
done
