#!/bin/bash
# Builds demo.rs (beside this file) against the crate in the current directory and runs it
# in a scratch directory: exit 0 if the behaviour is right, nonzero if not.
set -e
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/scratch"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
dir-signature = { path = "$repo" }
[workspace]
T
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null || true
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_PROFILE_DEV_DEBUG=0
export PATH="/root/.cargo/bin:$PATH"
cd "$t"
cargo build --quiet --offline 2>"$t/log" || { cat "$t/log"; exit 3; }
cd "$t/scratch"
DEMO_REPO=$repo timeout 120 "$t/target/debug/demo"
