#!/bin/bash
# builds the symbolic executor; arg: target dir
export RUSTUP_TOOLCHAIN=nightly-2025-04-15-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
SYS=$(rustc --print sysroot)/lib
export RUSTFLAGS="-Clink-arg=$SYS/libLLVM.so.20.1-rust-1.88.0-nightly -Clink-arg=-Wl,-rpath,$SYS"
cd "$(dirname "$0")" && CARGO_TARGET_DIR=$1 cargo build --release -q
