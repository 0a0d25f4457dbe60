#!/bin/bash
# does the check of its property catch each planted bug?  catch.sh <seeded folder>...
# works on a scratch clone; /repo is not touched
s=$(mktemp -d /tmp/catch.XXXXXX)
git clone -q /repo "$s/repo"
for d in "$@"; do
  d=$(cd "$d" && pwd); n=$(basename "$d")
  p=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
  git -C "$s/repo" apply "$d/patch.diff" || { echo "$n: does not apply"; continue; }
  t=$(date +%s)
  DGV_REPO="$s/repo" timeout 900 python3-vt "$(dirname "$0")/../check.py" "$p" > "$s/out.txt" 2>&1; r=$?
  echo "$n $p exit=$r $(( $(date +%s) - t ))s $(grep -m1 '^VIOLATION' "$s/out.txt") $([ $r -gt 1 ] && tail -2 "$s/out.txt" | cut -c1-300)"
  git -C "$s/repo" checkout -q -- .
done
rm -rf "$s"
