#!/bin/bash
# confirm planted bugs: plant.sh <seeded folder>...
# with the patch: builds, stable tests pass, demo fails; without: demo passes
base=/opt/vp/BASELINE.json
for d in "$@"; do
  d=$(cd "$d" && pwd); n=$(basename "$d")
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply --check "$d/patch.diff" || { echo "$n: does not apply"; continue; }
  git -C /repo apply "$d/patch.diff"
  r=ok
  bash /opt/vp/test.sh /tmp/plant-out.json >/tmp/plant-log.txt 2>&1 || true
  python3 - "$base" /tmp/plant-out.json <<'P' || r="tests fail"
import json,sys
b=json.load(open(sys.argv[1])); o=json.load(open(sys.argv[2]))
st=b.get('stable') or b.get('passed') or b
miss=[t for t in st if t not in o['passed']]
print('failing tests:',miss) if miss else None
sys.exit(bool(miss))
P
  (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/plant-demo1.txt 2>&1); a=$?
  git -C /repo checkout -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/plant-demo0.txt 2>&1); b=$?
  echo "$n: $r; demo with patch: $a; without: $b"
done
rm -f /tmp/plant-out.json
