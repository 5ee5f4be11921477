#!/bin/bash
# crosscheck.sh: lines "seed property" on stdin; whether the quick check of that property sees the planted change
cd "$(dirname "$0")/.."
while read -r id p; do
  [ -n "$(git -C /repo status --short)" ] && { echo "/repo not clean"; exit 1; }
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
  s=$(date +%s); out=$(./check.sh "$p" quick 2>&1 </dev/null); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s"
done
