#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS="-Awarnings"
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
divans = { path = "$repo" }
alloc-no-stdlib = "~2.0"
alloc-stdlib = "~0.2"
brotli = "~3.1"
[profile.dev]
opt-level = 1
debug = false
overflow-checks = false
X
(cd "$d" && timeout 280 cargo build --offline -q) >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 3; }
cd "$d" && timeout 60 "$d/target/debug/demo"
