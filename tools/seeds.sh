#!/bin/bash
# applies each planted bug to /repo, runs its property's check, undoes it: bash tools/seeds.sh [ID...]
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(bin/vc check $p 2>/dev/null); rc=$?
  git -C /repo checkout -q -- .
  echo "$id rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep '^VIOLATION' | sed 's/replay=[^ ]*//')"
  if [ -n "$SEEDV" ]; then echo "$out" | head -20; fi
done
