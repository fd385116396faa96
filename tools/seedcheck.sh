#!/bin/bash
# seedcheck.sh ANALYZER [ids]: applies each planted bug to a copy of /repo and runs its property's check.
an=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p /tmp/seedcheck.v.$$; cp "$here/known-findings.txt" /tmp/seedcheck.v.$$/
for d in $(if [ $# -gt 0 ]; then printf '%s\n' "$@"; else ls "$here/seeded"; fi); do
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$d/meta.json'))['property'])")
  rm -rf /tmp/seedcheck.$$; cp -a /repo /tmp/seedcheck.$$
  git -C /tmp/seedcheck.$$ apply "$here/seeded/$d/patch.diff" || { echo "$d DOES NOT APPLY"; continue; }
  out=$(VERIF_DIR=/tmp/seedcheck.v.$$ timeout 900 $an $p /tmp/seedcheck.$$); rc=$?
  echo "$d $p rc=$rc $(echo "$out" | grep -A2 -m1 -E '^[a-z].*: ' | tr '\n' ' ' | cut -c1-${W:-150})"
done
rm -rf /tmp/seedcheck.$$
