#!/bin/bash
# tryall.sh <seed id>... : each planted bug against the check of its property (development aid)
cd "$(dirname "$0")/.."
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  o=$(tools/try.sh "$PWD/seeded/$s/patch.diff" $p 2>&1)
  if echo "$o" | grep -q "VIOLATION property=$p"; then echo "caught $s $p: $(echo "$o" | grep -m1 '^FAIL')"; else echo "MISSED $s $p"; fi
done
