#!/bin/bash
# Applies each named planted bug (default: all) to /repo, runs its property's quick check, undoes it. Prints caught/MISSED.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  ./check $p --tier quick > build/seed.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" build/seed.out; then echo "$d ($p): caught  $(tail -1 build/seed.out)"; else echo "$d ($p): MISSED rc=$rc $(tail -1 build/seed.out)"; fi
done
