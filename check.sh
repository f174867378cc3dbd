#!/bin/bash
# check.sh PROPERTY: builds and runs one check (environment: VERIF_SEED, VERIF_TIER).
cd "$(dirname "$0")" || exit 2
bash build.sh > .build.log 2>&1
built=$?
[ $built -ne 0 ] && cat .build.log >&2
rm -f .build.log
export VERIF_DIR="$PWD"
case $built in
  0) exec .build/std/release/sim check "$1" ;;
  3)
    # the std build can still find a violation, but finding none is no verdict without the other
    echo "the build without the standard library failed, only the std build runs" >&2
    SIM_NO_LIBM=1 .build/std/release/sim check "$1"
    code=$?
    [ $code -eq 0 ] && exit 2
    exit $code
    ;;
  *)
    echo "build failed" >&2
    exit 2
    ;;
esac
