#!/bin/bash
# development aid: run every claimed check on the tree and print the verdict line
cd "$(dirname "$0")/.."
for p in ${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  VERIF_SEED=1 python3 check.py $p >/tmp/chk.$p 2>&1; echo "$p rc=$? $(tail -1 /tmp/chk.$p | cut -c1-300)"
done
