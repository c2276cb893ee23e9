#!/bin/bash
# tools/catch.sh ID... : run the property's quick check against each planted bug, in a scratch copy of /repo
W=$(mktemp -d /tmp/catch.XXXXXX)
git -C /repo archive HEAD | tar x -C "$W"; git -C "$W" init -q
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C "$W" apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  out=$(FVC_REPO="$W" python3-vt /verif/check.py $p 2>&1); rc=$?
  git -C "$W" apply -R /verif/seeded/$id/patch.diff
  echo "$id $p exit=$rc $(echo "$out" | grep VIOLATION | cut -c1-200)"
done
rm -rf "$W"
