#!/bin/bash
# Runs main.rs and rig.rs (beside this file) against the crates of the repository in the current directory.
# Everything is written below a scratch directory that is removed again.
repo=$(pwd); here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$here/rig.rs" "$tmp/src/" && cp "$repo/Cargo.lock" "$tmp/Cargo.lock" || exit 2
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
socket-io-protocol = { path = "$repo/socket-io-protocol" }
socket-io-client = { path = "$repo/socket-io-client" }
async-tungstenite = { version = "0.7", features = ["async-tls"] }
futures = { version = "0.3.5", features = ["unstable", "bilock"] }
serde = { version = "1.0", features = ["derive"] }
serde_json = { version = "1.0", features = ["raw_value"] }
log = "0.4"
T
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q 2>"$tmp/err" || { cat "$tmp/err"; exit 2; }
timeout 120 "$tmp/target/debug/demo"
