#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test (and the thin shim that instantiates its
# generic functions) with a call-back at every control-flow edge, load and store. The
# call-backs are the simulator's scheduling and step-counting seam; no source change in /repo.
rustc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && { [ "$a" = sgp4 ] || [ "$a" = shim ]; }; then
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores
  fi
  prev="$a"
done
exec "$rustc" "$@"
