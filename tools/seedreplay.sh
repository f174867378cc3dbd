#!/bin/bash
# seedreplay.sh ID...: as seedrun.sh, and replays the file the check wrote while the change is applied.
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
  prop=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash check.sh "$prop" 2>/dev/null); code=$?
  file=$(sed -n "s/^VIOLATION property=$prop replay=//p" <<< "$out")
  echo "$id ($prop): exit $code $(grep -m1 "^$prop: " <<< "$out")"
  [ -n "$file" ] && bash replay.sh "$file" 2>/dev/null | grep -E "second execution|same history|not reproduced" | sed 's/^/    /'
  git -C /repo checkout -q -- .
done
