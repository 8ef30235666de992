#!/bin/bash
# trybug.sh ID...: run the check of its property against a planted bug, in a scratch copy of /repo
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  d=$(mktemp -d /tmp/trybug.XXXXXX); git clone -q /repo "$d/repo"
  git -C "$d/repo" apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; rm -rf "$d"; continue; }
  s=$(date +%s); out=$(VP_REPO="$d/repo" VP_BUILD="$d/build" python3 /verif/tools/check.py $p 2>&1); rc=$?; e=$(date +%s)
  rm -rf "$d"
  echo "$b $p rc=$rc $((e-s))s: $(echo "$out" | grep -E '^VIOLATION' | head -1) | $(echo "$out" | tail -1 | cut -c1-200)"
done
