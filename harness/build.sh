#!/bin/bash
# build the harness against /repo's working tree; the binary is copied to $1
set -e
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="-Awarnings"
unset CARGO_RESOLVER_LOCKFILE_PATH
export CARGO_TARGET_DIR=${HARNESS_TARGET:-/verif/build/harness-target}
cd "$(dirname "$0")"
cargo build --offline --quiet
[ -n "$1" ] && cp "$CARGO_TARGET_DIR/debug/harness" "$1"
true
