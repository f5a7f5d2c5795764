#!/bin/bash
# Run with cwd at the openraft repository: builds main.rs against it in a scratch directory and runs it.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2024-07-02 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET
T=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX")
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$HERE"/*.rs "$T/src/"
sed "s#@REPO@#$REPO#" "$HERE/Cargo.toml.in" > "$T/Cargo.toml"
cp "$HERE/Cargo.lock" "$T/Cargo.lock"
cd "$T"
CARGO_TARGET_DIR=$T/target cargo build --offline -q
timeout 100 "$T/target/debug/demo"
