#!/bin/bash
# seedcheck.sh [-t tier] [id...] : which planted changes the check of their property catches (edits /repo and undoes it)
cd "$(dirname "$0")/.."
tier=quick; [ "$1" = -t ] && { tier=$2; shift 2; }
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  [ -n "$(git -C /repo status --short)" ] && { echo "/repo not clean"; exit 1; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s); out=$(./check.sh "$p" $tier 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c "^VIOLATION property=$p ") violation(s)"
done
