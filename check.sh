#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
root="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_ROOT="$root"
if [ ! -x "$root/bin/vengine" ]; then
  bash "$root/setup.sh" || { echo "INCONCLUSIVE: the checker does not build"; exit 0; }
fi
limit=840
[ "$tier" = thorough ] && limit=6600
timeout -k 10 "$limit" "$root/bin/vengine" -prop "$prop" -tier "$tier"
rc=$?
if [ $rc -eq 1 ]; then exit 1; fi
if [ $rc -ne 0 ]; then echo "INCONCLUSIVE: checker ended with $rc"; fi
exit 0
