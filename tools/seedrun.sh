#!/bin/bash
# seedrun.sh ID...: applies each seeded change to /repo, runs its property's check, undoes it.
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
  prop=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash check.sh "$prop" > /tmp/seedrun.out 2>&1
  code=$?
  git -C /repo checkout -q -- .
  echo "$id ($prop): exit $code $(grep -c "VIOLATION property=$prop" /tmp/seedrun.out) $(head -2 /tmp/seedrun.out | tr '\n' ' ' | cut -c1-300)"
done
