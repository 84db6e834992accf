#!/bin/bash
# Builds the simulator against /repo's current working tree, offline.
cd "$(dirname "$0")" || exit 2
here=$(pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=$here/rustc-wrapper.sh CARGO_TARGET_DIR=$here/target CARGO_INCREMENTAL=0
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
# part of cargo's fingerprint, unlike the wrapper
export RUSTFLAGS="--cfg dst_instrumented"
# without the crate that implements corries' trait Physics, should that have changed
cargo build --offline --locked --features own "$@" || exec cargo build --offline --locked "$@"
