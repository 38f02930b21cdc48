#!/bin/bash
# Runs main.rs (beside this file) against the crates of the repository in the current directory.
# Everything is written below a scratch directory that is removed again.
repo=$(pwd); here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs" && cp "$repo/Cargo.lock" "$tmp/Cargo.lock" || exit 2
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
owned_subslice = { path = "$repo/owned_subslice" }
socket-io-protocol = { path = "$repo/socket-io-protocol" }
tungstenite = "*"
serde = { version = "1.0", features = ["derive"] }
serde_json = { version = "1.0", features = ["raw_value"] }
T
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q || exit 2
timeout 120 "$tmp/target/debug/demo"
