#!/bin/bash
# Builds main.rs beside this file against the cernan in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
export CARGO_HOME=$repo/target/demo-home CARGO_TARGET_DIR=$repo/target RUST_BACKTRACE=0
mkdir -p "$CARGO_HOME" "$repo/target/demo-src/src"
cp /opt/vp/cargo-home/config "$CARGO_HOME/config"
cp "$here/main.rs" "$repo/target/demo-src/src/main.rs"
touch "$repo/target/demo-src/src/main.rs"
cp "$repo/Cargo.lock" "$repo/target/demo-src/Cargo.lock"
cat > "$repo/target/demo-src/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
cernan = { path = "$repo" }
hopper = "0.4"
byteorder = "1.0"
protobuf = "1.7"
serde_json = "1.0"
mio = "0.6.11"
toml = "0.4"
[profile.dev]
codegen-units = 4
[workspace]
T
# what is built is judged by its contents, not by its dates
rm -rf "$repo"/target/debug/.fingerprint/cernan-* "$repo"/target/debug/.fingerprint/demo-*
cd "$repo/target/demo-src" || exit 2
cargo build --offline > build.log 2>&1 || { tail -30 build.log; exit 2; }
export TMPDIR=$(mktemp -d)
timeout 120 "$repo/target/debug/demo"
rc=$?
rm -rf "$TMPDIR"
exit $rc
