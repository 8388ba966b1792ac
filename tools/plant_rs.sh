#!/bin/bash
# builds the crate of the current directory and the program beside this file in a scratch directory, and runs it
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/crate" "$tmp/demo/src"
cp -r rs/src "$tmp/crate/src"
cp "$here/demo.rs" "$tmp/demo/src/main.rs"
cat > "$tmp/crate/Cargo.toml" <<'TOML'
[package]
name = "latkerlo-jvotci"
version = "0.1.0"
edition = "2024"
autobins = false
[dependencies]
indexmap = "*"
itertools = "*"
regex = "*"
TOML
cat > "$tmp/demo/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
latkerlo-jvotci = { path = "../crate" }
[workspace]
TOML
cd "$tmp/demo" && CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings timeout 280 cargo run --offline -q
