#!/bin/bash
# Apply each seeded bug to /repo, run its property's check (or those given), undo.  hunt.sh [ID...]
cd "$(dirname "$0")/.."
ids=${*:-$(ls seeded)}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  timeout 900 python3 bin/check.py $p --tier ${TIER:-quick} > /tmp/hunt.$id 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit $c $(grep -c '^VIOLATION' /tmp/hunt.$id) $(tail -1 /tmp/hunt.$id)"
done
