#!/bin/bash
# all.sh "SEEDS" ["IDS"] [extra arguments]: runs the quick checks one after another
cd "$(dirname "$0")/.."
ids=${2:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29}
for s in $1; do for i in $ids; do
  timeout 900 python3 tools/check.py C$i --seed $s $3 > build/out.C$i.$s 2>&1; echo "C$i seed $s: rc=$? $(grep -v KNOWN build/out.C$i.$s | tail -4 | cut -c1-300)"
done; done
