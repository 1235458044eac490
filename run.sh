#!/bin/bash
# Usage: run.sh PROPERTY [GROUP:CASE]   (VERIF_SEED, VERIF_TIER)
# Builds what the property's monitors need from /repo's working tree and runs them.
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$V" || exit 2
export KMON_VERIF="$V"
P=$1
need() { bash "$V/build.sh" "$@" || exit 2; }
KMON="$V/target/release/release/kmon"
case $P in
C22|C23|C33)
    need release ext
    export KMON RUST_BACKTRACE=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
    exec python3 py/$(echo $P | tr C c).py "${@:2}" ;;
C30|C31|C34)
    need release ext
    export KMON RUST_BACKTRACE=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
    exec python3 py/$(echo $P | tr C c).py "${@:2}" ;;
C27)
    need release
    if [ -n "$2" ]; then exec "$KMON" "$@"; fi
    need tsan
    exec python3 py/san.py C27 "$KMON" ;;
C32)
    need release ext
    export KMON RUST_BACKTRACE=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
    case $2 in ""|python:*) exec python3 py/c32.py "${@:2}" ;; esac
    exec "$KMON" "$@" ;;
C28)
    need asan msan miri
    exec python3 py/san.py C28 "${@:2}" ;;
*)
    need release
    exec "$KMON" "$@" ;;
esac
