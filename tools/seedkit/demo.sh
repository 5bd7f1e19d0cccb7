#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/main.rs" "$D/util.rs" "$W/src/"
cp "$D/Cargo.lock" "$W/Cargo.lock"
sed "s#@REPO@#$R#" "$D/Cargo.toml.in" > "$W/Cargo.toml"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
cd "$W" || exit 2
cargo build --offline --quiet --target-dir "$W/t" > "$W/log" 2>&1 || { tail -20 "$W/log"; exit 2; }
timeout 200 "$W/t/debug/demo"
