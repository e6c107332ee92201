#!/bin/bash
# Builds demo.rs against the crate in the working directory, in a scratch directory, and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS
mkdir -p "$t/fitsrs" "$t/demo/src"
python3 "$here/mirror.py" "$PWD" "$t/fitsrs" || exit 3
cp "$here/demo.rs" "$t/demo/src/main.rs"
cp "$here/common.rs" "$t/demo/src/common.rs"
cp "$here/Cargo.lock" "$t/demo/Cargo.lock"
cat > "$t/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fitsrs = { path = "../fitsrs", features = ["image"] }
image = { version = "0.25.10", default-features = false }
futures = { version = "0.3.31", default-features = false, features = ["std"] }
flate2 = "1.0.35"
serde = { version = "1.0.152", features = ["derive"] }
[profile.dev]
debug = 0
T
cd "$t/demo" || exit 3
ulimit -t 200
cargo build --offline -q 2> "$t/log" || { tail -30 "$t/log"; exit 4; }
"$t/target/debug/demo"
