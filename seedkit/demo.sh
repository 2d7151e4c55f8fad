#!/usr/bin/env bash
# Demonstration: runs main.rs against the crate in the current directory.
# Exit 0: the property holds in the demonstrated case; nonzero: it does not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$here/mini.rs" "$work/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
mysql_cdc = { path = "$repo" }
openssl = "0.10"
[workspace]
T
cd "$work"
export CARGO_TARGET_DIR="$work/target" RUSTFLAGS="-Awarnings" DEMO_DIR="$work"
cargo build --offline -q || { echo "demo does not build"; exit 3; }
timeout 120 "$work/target/debug/demo"
