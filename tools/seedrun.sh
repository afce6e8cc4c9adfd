#!/bin/bash
# seedrun.sh [ID...]: apply each planted bug to /repo, run the check of its property, undo
cd "$(dirname "$0")/.."
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(python3 harness/check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') :: $(echo "$out" | grep -v '^VIOL\|^KNOWN' | head -1)"
done
git -C /repo status --short
