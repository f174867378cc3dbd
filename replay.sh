#!/bin/bash
# replay.sh FILE: executes the plan of a replay file twice and compares.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
log=$(mktemp) || exit 2
if ! bash build.sh > "$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
exec .build/std/release/sim replay "$f"
