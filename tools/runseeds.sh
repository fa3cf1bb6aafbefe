#!/bin/bash
# apply each planted bug to a scratch clone of /repo, run the check of its property there, remove the clone
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seedrun.XXXXXX)
  git clone -q /repo $t/repo; mkdir $t/ev
  git -C $t/repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY FAILED"; continue; }
  s=$(date +%s)
  out=$(VP_REPO=$t/repo VP_EVID=$t/ev python3-vt engine/check.py $p 2>&1); rc=$?
  rm -rf $t
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION | grep -o 'no-failing.*\|confirmed' ) $(echo "$out" | grep -m1 'failed obl')"
done
