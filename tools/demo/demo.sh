#!/bin/bash
# exit 0: the library behaves as documented; 1: it does not. Builds a small program against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$here/eval.rs" "$tmp/src/"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
calcu-rs = { path = "$repo" }
[profile.dev]
debug = 0
T
export HOME=/root PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS=-Awarnings RUSTC_WRAPPER=
unset CARGO_RESOLVER_LOCKFILE_PATH
cd "$tmp" && cargo build --offline --quiet || exit 3
timeout 120 "$tmp/target/debug/demo"
