#!/bin/bash
# Runs checks over several seeds: tools/seeds.sh "C01 C02" "1 2 3"
OUT=$(mktemp); cd "$(dirname "$0")/.."
for id in ${1:-$(cat tools/claimed.txt)}; do for s in ${2:-1 2 3 4}; do
 VERIF_SEED=$s bash check.sh $id ${3:-quick} > $OUT 2>&1; rc=$?
 echo "$id seed=$s rc=$rc $(grep -a '^HELD' $OUT | head -c 200)"
 [ $rc != 0 ] && head -c 1500 $OUT
done; done
