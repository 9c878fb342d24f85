#!/bin/bash
# Builds the program beside this file against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
json-ld = { path = "$repo" }
iref = "3.1"
rdf-types = "0.22"
futures = "0.3"
[profile.dev]
debug = false
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
(cd "$tmp" && cargo build --offline -q 2>"$tmp/log") || { tail -30 "$tmp/log"; exit 2; }
timeout 60 "$tmp/target/debug/demo" "$here/cases.json" "$@"
