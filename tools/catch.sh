#!/bin/bash
# catch.sh [ids...]: applies each seeded change to /repo, runs the check of its property, undoes it.
cd /verif || exit 2
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo is not clean"; exit 2; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(bash check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -- .
  v=$(echo "$out" | grep -c "^VIOLATION property=$p ")
  [ $rc = 1 ] && [ "$v" -gt 0 ] && r=CAUGHT || r="MISSED rc=$rc"
  echo "$id $p $r $(( $(date +%s) - s ))s $(echo "$out" | grep '^VIOLATION' | head -1 | cut -c1-120)"
  [ $rc = 2 ] && echo "$out" | tail -3
done
