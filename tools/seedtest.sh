#!/bin/bash
# tools/seedtest.sh <id> [nobuild]: validate a planted bug and see whether its check catches it
id=$1; s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
echo "== $id ($p)"
bash $s/demo.sh >/tmp/demo0.log 2>&1 || { echo "DEMO FAILS UNPATCHED"; tail -5 /tmp/demo0.log; exit 1; }
git apply $s/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if bash $s/demo.sh >/tmp/demo1.log 2>&1; then echo "DEMO PASSES PATCHED"; exit 1; fi
echo "demo: $(tail -2 /tmp/demo1.log | tr '\n' ' ')"
if [ "$2" != nobuild ]; then
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; echo "build rc=$?"
  bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
print("stable tests broken:", sorted(set(b['stable'])-set(o['passed']))[:5])
P
fi
cd /verif && timeout 900 python3 check.py $p 2>&1 | grep -v '^#' | tail -4; echo "check rc=${PIPESTATUS[0]}"
