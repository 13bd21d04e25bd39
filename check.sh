#!/bin/bash
# Usage: check.sh <property id> | --build
# Rebuilds the simulator against /repo's current working tree, then runs one property's check.
# Exit 0: held; exit 1 with a VIOLATION line: broken; anything else: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
export HOME=/root CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
unset CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_ENCODED_RUSTFLAGS RUSTFLAGS
export VERIF_DIR="${VERIF_DIR:-$PWD}"
# cargo compares mtimes only: never reuse a build of the code under test
rm -rf "$PWD"/sim/target/release/.fingerprint/unixfs-*
log=$(mktemp /tmp/unixfs-sim-build.XXXXXX)
if ! (cd sim && cargo build --release --offline --locked) >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
[ "${1:-}" = "--build" ] && exit 0
exec sim/target/release/sim check "$1"
