#!/bin/bash
# Builds and runs main.rs (beside this file) against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here"/*.rs "$t/src/" || exit 3
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ntfs = { path = "$repo", features = ["time"] }
time = { version = "0.3.9", features = ["large-dates", "macros"], default-features = false }
X
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/"
cd "$t" || exit 3
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTC_WRAPPER=
cargo build --offline >"$t/log" 2>&1 || { tail -30 "$t/log"; exit 3; }
timeout 60 "$t/target/debug/demo"
