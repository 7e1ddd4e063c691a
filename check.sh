#!/bin/bash
# Usage: check.sh <property id> [quick|thorough]   |   check.sh replay <file>   |   check.sh build
# Rebuilds the explorer against /repo's current working tree, then runs it.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
export CARGO_TARGET_DIR=$here/target
mkdir -p "$here/target" "$here/evidence"
log=$here/target/build-$$.log
if ! cargo build --release --offline --locked --manifest-path "$here/mc/Cargo.toml" >"$log" 2>&1; then
    grep -A12 "^error" "$log" >&2
    rm -f "$log"
    echo "BUILD FAILED: the explorer does not compile against /repo" >&2
    exit 2
fi
rm -f "$log"
ulimit -v 25165824 # a runaway allocation ends the explorer, not the sandbox
mc=$here/target/release/mc
case "$1" in
    build) exit 0 ;;
    replay) exec "$mc" replay "$2" ;;
    *) exec "$mc" check "$1" "${2:-quick}" ;;
esac
