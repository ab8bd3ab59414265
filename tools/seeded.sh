#!/bin/bash
# Applies each planted bug to /repo, runs the check of its property (or the given ones) and undoes it.
# usage: seeded.sh [ids...]
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  out=$(VERIF_SEED=${SEED:-1} bash check.sh ${CHECK:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -aq "^VIOLATION property=" <<<"$out"; then echo "caught $d ($p)"; else echo "MISSED $d ($p) rc=$rc $(head -c 300 <<<"$out")"; fi
done
