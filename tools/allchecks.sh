#!/bin/bash
# all checks with the given seeds; prints what is not quiet
cd "$(dirname "$0")/.."
for s in "$@"; do for i in $(grep -o '"property": "C[0-9]*"' MANIFEST.json | grep -o "[0-9]*"); do
  o=$(VERIF_SEED=$s timeout 2000 python3 run.py C$i ${EXTRA} 2>&1); rc=$?
  echo "seed $s C$i rc=$rc $(echo "$o" | tail -1 | cut -c1-200)"
  [ $rc = 0 ] || echo "$o" | tail -8 | cut -c1-1500
done; done
