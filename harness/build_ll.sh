#!/bin/sh
# Compiles the harness together with /repo's current sources and all dependencies to one LLVM IR module.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cargo rustc --offline -q --release --features sym --target-dir target/sym --bin harness -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all
ls -t target/sym/release/deps/harness-*.ll | head -1
