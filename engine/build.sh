#!/bin/sh
# Builds the symbolic-execution engine.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib
RUSTFLAGS="-Copt-level=3 -L $Z -C link-arg=-Wl,-rpath,$Z" cargo build --release --offline -q
