#!/bin/bash
# seedtest.sh ID... : apply each planted bug to /repo, build, run stable tests, its demo (must fail) and its property's quick check (reports), undo; then demos on the clean tree
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.b 2>&1 || { echo "$id: does not build"; git checkout -q -- .; continue; }
  t=$(bash /opt/vp/test.sh /tmp/seed.json 2>/dev/null | grep passed)
  lost=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seed.json')); 
ok=set(r.get('passed',[])); print(len([x for x in b if x not in ok]))
P
)
  timeout 300 bash $d/demo.sh >/tmp/seed.d 2>&1; dr=$?
  if [ -z "$NOCHECK" ]; then timeout 900 python3 /verif/tools/check.py $p quick >/tmp/seed.c 2>&1; cr=$?; v=$(grep -c "^VIOLATION property=$p" /tmp/seed.c); fi
  git checkout -q -- .
  echo "$id: property $p tests[$t lost $lost] demo=$dr (want nonzero) check=$cr violations=$v"
done
bash /opt/vp/build.sh >/tmp/seed.b 2>&1
for id in "$@"; do timeout 300 bash /verif/seeded/$id/demo.sh >/tmp/seed.d 2>&1; echo "$id: clean demo=$? (want 0)"; done
