#!/bin/bash
# usage: dump.sh OUT.json [TARGETDIR]   dumps the MIR of /repo's library crate (current working tree)
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1; TGT=${2:-$HERE/build/target}
export HOME=/root PATH="/root/.cargo/bin:$PATH"
unset RUSTC_WRAPPER
# the lock file committed in /repo is behind Cargo.toml: use a completed copy
mkdir -p "$TGT/lock"; cp "$HERE/mirdump/repo.lock" "$TGT/lock/Cargo.lock"
export CARGO_RESOLVER_LOCKFILE_PATH="$TGT/lock/Cargo.lock"
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$TGT CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on -Awarnings"
export RUSTC_WORKSPACE_WRAPPER=$HERE/build/mirdump MIRDUMP_CRATE=calcu_rs MIRDUMP_OUT=$OUT
export MIRDUMP_FOLLOW=$HERE/mirdump/follow.txt MIRDUMP_STOP=$HERE/mirdump/stop.txt
rm -f "$OUT"
cd /repo
# the wrapper is part of cargo's fingerprint; force the crate itself to be rebuilt on every run
rm -rf "$TGT"/debug/build/calcu-rs "$TGT"/debug/.fingerprint/calcu-rs-* "$TGT"/debug/incremental/calcu_rs-*
cargo check --offline -q --lib -p calcu-rs 1>&2
[ -s "$OUT" ]
