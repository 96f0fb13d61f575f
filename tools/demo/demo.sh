#!/bin/bash
# builds the small program beside this file against the crate in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D"/*.rs "$T/src/" && cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
sevenz-rust = { path = "$R", features = ["aes256"] }
lzma-rust = { path = "$R/lzma-rust" }
[workspace]
X
cd "$T"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/t"
unset RUSTFLAGS
cargo build --offline -q 2>"$T/log" || { tail -20 "$T/log"; exit 3; }
mkdir "$T/run" && cd "$T/run" && timeout 120 "$T/t/debug/demo"
