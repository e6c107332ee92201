#!/bin/bash
# Builds the command line tool of the working directory in a scratch directory and runs demo.py with it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS
mkdir -p "$t/fitsrs" "$t/data"
python3 "$here/mirror.py" "$PWD" "$t/fitsrs" --cli || exit 3
cp "$here/Cargo.lock" "$t/fitsrs/Cargo.lock"
cd "$t/fitsrs" || exit 3
cargo build --offline -q -p fits-cli 2> "$t/log" || { tail -30 "$t/log"; exit 4; }
python3 "$here/demo.py" "$t/target/debug/fits" "$t/data"
