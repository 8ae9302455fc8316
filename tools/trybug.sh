#!/bin/bash
# trybug.sh ID...: apply each planted bug to /repo, run its property's check, undo.
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || continue
  s=$(date +%s)
  (cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py $p quick > /tmp/w/try.$i.log 2>&1; echo "$i $p rc=$? $(($(date +%s)-s))s $(grep VIOLATION /tmp/w/try.$i.log | head -2)")
  git -C /repo checkout -q -- .
done
