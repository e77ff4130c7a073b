#!/bin/bash
# Builds main.rs against the repository in the current directory and runs it: exit 0 if the property holds.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
whippyunits = { path = "$repo" }
whippyunits-core = { path = "$repo/whippyunits-core" }
T
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cd "$work"
cargo run --offline -q
