#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it: 0 when the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
W=$(mktemp -d /tmp/unixfs-demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_TARGET_DIR=$W/target CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
mkdir "$W/src"
cp "$here/demo.rs" "$W/src/main.rs"
cp "$here/common.rs" "$W/src/common.rs"
cp "$repo/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
unixfs-v1 = { path = "$repo" }
libipld = { version = "0.14.0", default-features = false }
T
cd "$W" || exit 3
cargo build -q --offline 2> build.log || { tail -20 build.log; exit 4; }
timeout 100 "$W/target/debug/demo"
