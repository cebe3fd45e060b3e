#!/bin/bash
# Builds main.rs (beside this script) against the stabby crate of the current directory and runs it.
# Exit 0: behaviour as documented. Nonzero: broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
stabby = { path = "$repo/stabby", default-features = false, features = ["std", "libc", "serde", "libloading"] }
[profile.dev]
debug = 0
T
cd "$w"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$w/target
unset RUSTFLAGS
if ! cargo build --offline >"$w/log" 2>&1; then tail -30 "$w/log"; exit 3; fi
timeout 120 "$w/target/debug/demo"
