#!/bin/bash
# check.sh ID [quick|thorough] [seed]      run the check of one property
# check.sh ID replay FILE                  run the case of a replay file again
# check.sh build                           only build
set -u
V="$(cd "$(dirname "$0")" && pwd)"
B="$V/.build"
mkdir -p "$B"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$B/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS
build() {
  python3 "$V/mirror.py" "$B/mirror" || return 2
  (cd "$V/harness" && cargo build --offline -q) || return 2
}
cli() {
  (cd "$B/mirror" && CARGO_TARGET_DIR="$B/target-cli" cargo build --offline -q -p fits-cli) || return 2
}
exec 9>"$B/lock"
flock 9
build > "$B/build.log" 2>&1 || { tail -40 "$B/build.log"; echo "the harness does not build against /repo"; exit 2; }
if [ "${1:-}" = build ] || [ "${1:-}" = C19 ]; then
  cli > "$B/build-cli.log" 2>&1 || { tail -40 "$B/build-cli.log"; echo "the command line tool does not build"; exit 2; }
fi
flock -u 9
[ "${1:-}" = build ] && exit 0
export VERIF_OUT="$V" VERIF_SCRATCH="$B" VERIF_CLI="$B/target-cli/debug/fits"
if [ "${2:-}" = replay ]; then
  f="$3"
  tier=$(sed -n 's/^tier //p' "$f"); seed=$(sed -n 's/^seed //p' "$f"); case=$(sed -n 's/^case //p' "$f")
  exec "$B/target/debug/fitsmon" replay "$1" "$tier" "$seed" "$case"
fi
tier="${2:-${VERIF_TIER:-quick}}"
[ "$1 $tier" = "C16 thorough" ] || exec "$B/target/debug/fitsmon" check "$1" "$tier" ${3:-}

# C16 thorough: the hostile workload also runs under AddressSanitizer (with another seed), which would see what unsafe
# code does to memory, should there be any
"$B/target/debug/fitsmon" check "$1" "$tier" ${3:-} || exit $?
seed=$(( ${3:-${VERIF_SEED:-1}} + 1000 ))
asan_build() {
  (cd "$V/harness" && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$B/target-asan" RUSTFLAGS=-Zsanitizer=address \
    cargo build --offline -q --target x86_64-unknown-linux-gnu)
}
note() {
  python3 -c 'import json, sys
d = json.load(open(sys.argv[1]))
d["coverage"]["address_sanitizer"] = sys.argv[2]
json.dump(d, open(sys.argv[1], "w"), indent=1)' "$V/evidence/C16.json" "$1"
}
if ! asan_build > "$B/build-asan.log" 2>&1; then
  note "not run: no nightly build"
  exit 0
fi
out="$B/asan"; mkdir -p "$out"; cp "$V/KNOWN_FINDINGS.txt" "$out/"
VERIF_OUT="$out" ASAN_OPTIONS=detect_leaks=0 timeout 200 \
  "$B/target-asan/x86_64-unknown-linux-gnu/debug/fitsmon" check C16 quick $seed > "$out/log" 2>&1
rc=$?
cut -c1-2000 "$out/log"
if [ $rc = 1 ]; then
  grep -q "^VIOLATION" "$out/log" || echo "VIOLATION property=C16 replay=$out/log"
  exit 1
fi
note "exit $rc: $(head -1 "$out/log")"
exit 0
