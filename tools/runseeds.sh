#!/bin/bash
# Applies each planted bug to /repo, runs the quick check of its property (or of those given in PROPS), undoes it.
# usage: runseeds.sh [ID...]
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")}
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  for q in $p; do
    t0=$(date +%s)
    out=$(python3 check.py $q --tier quick 2>&1); rc=$?
    echo "$s $q rc=$rc $(($(date +%s)-t0))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 'VIOLATION\|NO-VERDICT\|detail')"
  done
  git -C /repo checkout -- .
done
