#!/bin/bash
# builds the checkers (they are rebuilt by every check from /repo's working tree)
cd /verif/harness || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build --offline && RUSTFLAGS="--cfg verif_hooks" CARGO_TARGET_DIR=/verif/target/hooked cargo build --offline -p vhook
