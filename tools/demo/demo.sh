#!/bin/sh
# Builds main.rs against /repo's doctor-syn in a scratch directory and runs it: exit 0 when the property holds.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
doctor-syn = { path = "$repo/doctor-syn" }
syn = { version = "1", features = ["full", "extra-traits"] }
quote = "1"
proc-macro2 = "1"
EOF
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
cd "$t"
cargo build --offline -q --target-dir "$t/target" 2>"$t/log" || { cat "$t/log"; exit 3; }
"$t/target/debug/demo"
