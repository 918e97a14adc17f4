#!/bin/bash
# builds the driver with the installed nightly; no cargo, no network
set -e
cd "$(dirname "$0")"
mkdir -p ../build
SYS=$(rustc +nightly --print sysroot)
rustc +nightly --edition 2021 -O -A warnings -C link-arg=-Wl,-rpath,$SYS/lib main.rs -o ../build/mirdump
