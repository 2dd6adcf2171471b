#!/bin/bash
# Runs main.rs (beside this script) against the krates in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here"/*.rs "$t/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
krates = { path = "$repo", features = [${DEMO_FEATURES:-}] }
serde_json = "1"
[workspace]
T
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" cargo run --offline -q --manifest-path "$t/Cargo.toml" > "$t/out" 2>&1
rc=$?
tail -n 30 "$t/out"
exit $rc
