#!/bin/bash
# Builds the simulator against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_NET_OFFLINE=true
export RUSTFLAGS="-C target-cpu=x86-64" CARGO_TARGET_DIR="${SIM_TARGET:-$PWD/target}" CARGO_INCREMENTAL=0
exec cargo build --release --offline "$@"
