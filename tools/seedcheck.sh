#!/bin/bash
# applies each planted bug to a scratch copy: build, stable tests, the property's check
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  d=$(mktemp -d /tmp/p4sc.XXXXXX); git clone -q /repo $d/r; git -C $d/r apply $PWD/seeded/$s/patch.diff
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  P4_REPO=$d/r P4_EVIDENCE=$d timeout 600 ./check $p > $d/o 2>&1; rc=$?
  echo "$s $p rc=$rc $(grep -c "^VIOLATION property=$p" $d/o) $(grep '^  ' $d/o | head -1 | cut -c1-150)"
  rm -r "$d"
done
