#!/bin/bash
# builds the MIR dumper and compiles the dependencies once
set -e
cd "$(dirname "$0")"
export PATH="/root/.cargo/bin:$PATH" HOME=/root
mkdir -p build
bash mirdump/build.sh
bash mirdump/dump.sh "$PWD/build/setup-mir.json" & a=$!
bash harness/build.sh "$PWD/build/setup-harness"
wait $a
rm -f "$PWD/build/setup-mir.json" "$PWD/build/setup-harness"
