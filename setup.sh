#!/bin/bash
# Build all checkers once.
cd "$(dirname "$0")/mc" || exit 2
export VERIF_DIR="$(cd .. && pwd)"
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$VERIF_DIR/.build" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_BACKTRACE RUST_LIB_BACKTRACE RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
for p in ev evn seq net; do cargo build -q --offline --locked -p $p || exit 2; done
