#!/bin/bash
# Applies planted bugs to /repo one at a time, runs their property's quick check and undoes them.
# usage: matrix.sh [ID...]   (default: all of seeded/)
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id $prop APPLY"; continue; }
  start=$(date +%s)
  out=$(bash check.sh "$prop" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  line=$(echo "$out" | grep -m1 "^VIOLATION property=$prop")
  echo "$id $prop rc=$rc $(( $(date +%s) - start ))s $line $(echo "$out" | grep -m1 -i 'reason\|what' | cut -c1-150)"
done
