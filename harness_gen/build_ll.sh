#!/bin/sh
# Runs libmgen, built from /repo's current sources, and compiles what it generates with the harness to LLVM IR.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cargo build --offline -q --manifest-path /repo/libmgen/Cargo.toml --target-dir target/libmgen
mkdir -p gen
for b in 32 64; do
    target/libmgen/debug/libmgen --num-bits $b -f all,hypot,sin_cos,negate_on_odd,nextafter -o gen/new$b.rs
    sed -e 's/^fn /pub fn /' gen/new$b.rs > gen/pub$b.rs
    cmp -s gen/pub$b.rs gen/lib$b.rs || cp gen/pub$b.rs gen/lib$b.rs
done
cargo rustc --offline -q --release --features sym --target-dir target/sym --bin harness -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all
ls -t target/sym/release/deps/harness-*.ll | head -1
