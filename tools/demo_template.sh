#!/bin/bash
# Builds demo.rs against the working tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
doodle = { path = "$repo" }
doodle-formats = { path = "$repo/doodle-formats" }
doodle_gencode = { path = "$repo/generated" }
EOF
for d in $(cat "$here/omit" 2>/dev/null); do sed -i "/^$d = /d" "$tmp/Cargo.toml"; done
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" timeout 280 cargo run -q --offline
