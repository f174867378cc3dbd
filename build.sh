#!/bin/bash
# Builds the simulator against /repo's working tree, once per configuration of the crate
# (std with debug assertions and overflow checks, libm without). Everything is written below /verif/.build.
set -e
cd "$(dirname "$0")"
V="$PWD"
mkdir -p .build
exec 9>.build/lock
flock 9
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$V/sim/rustc-wrap.sh"
stamp=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$V/sim/rustc-wrap.sh") | sha256sum | cut -d' ' -f1)
build() {
  local variant=$1
  local dir="$V/.build/$variant"
  mkdir -p "$dir"
  # cargo decides by time stamps; the content of /repo decides here
  if [ "$(cat "$dir/stamp" 2>/dev/null)" != "$stamp" ]; then
    for d in "$dir"/release/.fingerprint/sgp4-* "$dir"/release/.fingerprint/shim-* "$dir"/release/.fingerprint/sim-*; do
      [ -d "$d" ] && rm -r "$d"
    done
    rm -f "$dir/stamp"
  fi
  # one of the two is built as users ship it: no debug assertions, arithmetic wraps
  local checks=true
  [ "$variant" = libm ] && checks=false
  (cd "$V/sim" && CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=$checks CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=$checks cargo build --release --offline --quiet --no-default-features --features "cfg-$variant" --target-dir "$dir") || return 1
  echo "$stamp" > "$dir/stamp"
}
build std & a=$!
build libm & b=$!
wait $a
# exit 3: only the build without the standard library failed
wait $b || exit 3
