#!/bin/bash
# Builds the simulator against /repo's current working tree.
set -e
D="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="-Ctarget-cpu=x86-64-v3 -Awarnings" RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$D/sim/target"
cd "$D/sim"
cargo build --offline --quiet 1>&2
