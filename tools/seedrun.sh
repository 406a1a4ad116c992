#!/bin/bash
# seedrun.sh [id ...]: runs the property check of every planted bug against it (in /repo, undone afterwards).
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  out=$(bash check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION) $(echo "$out" | tail -1 | grep -o '[0-9.]*s$')"
  if [ $rc -ne 1 ]; then echo "$out" | sed 's/^/    /' | cut -c1-300 | tail -12; fi
done
