#!/bin/bash
# seedrun.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, and undoes it.
cd /verif/seeded || exit 1
for s in ${@:-$(ls)}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  t0=$SECONDS
  out=$(/verif/check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -E '^(VIOLATION|INCONCLUSIVE)' | head -1)"
  find /verif/replays -name "$p-*" -delete
done
