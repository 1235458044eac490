#!/bin/bash
# Usage: build.sh VARIANT...   (release, ext, asan, msan, tsan, miri)
# Builds the monitors (or the Python extension) from /repo's working tree.
# Cargo decides by time stamps whether /repo changed; this also decides by content.
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$V" || exit 2
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG CARGO_TARGET_DIR RUSTFLAGS
mkdir -p target
H=$(cd /repo && find src Cargo.toml Cargo.lock build.rs pyproject.toml .cargo -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum | cut -d' ' -f1)
NIGHTLY="--target x86_64-unknown-linux-gnu"
one() {
    local v=$1 t="$V/target/$1"
    mkdir -p "$t"
    if [ "$(cat "$t/.source" 2>/dev/null)" != "$H" ]; then
        find "$t" -maxdepth 6 -type d -path '*/.fingerprint/komunikilo-*' -prune -exec rm -rf {} +
        rm -f "$t/.source"
    fi
    case $v in
    release)
        cargo build -q --release --offline --manifest-path harness/Cargo.toml --target-dir "$t" ;;
    ext)
        cargo build -q --release --offline --features extension-module --manifest-path /repo/Cargo.toml --lib --target-dir "$t" &&
            cp "$t/release/libkomunikilo.so" "$t/.komunikilo.so" && mv "$t/.komunikilo.so" "$t/komunikilo.so" ;;
    asan)
        unset RUSTUP_TOOLCHAIN
        RUSTFLAGS="-Zsanitizer=address" cargo +nightly build -q --release --offline --manifest-path harness/Cargo.toml --target-dir "$t" $NIGHTLY ;;
    msan)
        unset RUSTUP_TOOLCHAIN
        RUSTFLAGS="-Zsanitizer=memory -Zsanitizer-memory-track-origins" cargo +nightly build -q -Zbuild-std --release --offline --manifest-path harness/Cargo.toml --target-dir "$t" $NIGHTLY ;;
    tsan)
        unset RUSTUP_TOOLCHAIN
        RUSTFLAGS="-Zsanitizer=thread" cargo +nightly build -q -Zbuild-std --release --offline --manifest-path harness/Cargo.toml --target-dir "$t" $NIGHTLY ;;
    miri)
        unset RUSTUP_TOOLCHAIN
        MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats" KMON_NOFILES=1 cargo +nightly miri run -q --offline --manifest-path harness/Cargo.toml --target-dir "$t" -- --list ;;
    *) echo "unknown variant $v"; return 2 ;;
    esac || return 2
    echo "$H" > "$t/.source"
}
rc=0
for v in "$@"; do
    if ! (flock 9; one "$v") 9>"target/.lock.$v" >"target/build.$v.log" 2>&1; then
        tail -40 "target/build.$v.log"
        echo "build of $v failed"
        rc=2
    fi
done
exit $rc
