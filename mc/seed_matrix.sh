#!/bin/bash
# Developer tool (not a check): applies each planted bug of $SEEDS (default /verif/seeded) to /repo,
# runs the check of its property (or all checks with ALL=1), undoes it, prints who caught it.
cd "$(dirname "$0")/.." || exit 1
SEEDS=${SEEDS:-/verif/seeded}
for d in "$SEEDS"/${1:-*}/; do
  id=$(basename "$d")
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  if [ -n "$ALL" ]; then props=$(seq -f 'C%02g' 1 ${NPROP:-17}); else props=$prop; fi
  hit=""
  for p in $props; do
    s=$(date +%s)
    ./run.sh $p quick >/tmp/seed_out.txt 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/seed_out.txt; then hit="$hit $p"; elif [ $rc != 0 ]; then hit="$hit $p(rc=$rc)"; fi
  done
  git -C /repo checkout -- .
  echo "$id [$prop]:$hit"
done
