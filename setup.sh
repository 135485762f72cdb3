#!/bin/bash
# Builds the monitors from the committed files and /repo's working tree, offline.
set -e
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$V/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$V/target" "$V/evidence"
cd "$V/harness"
cargo build -q --offline --release --locked
"$V/target/release/mon" list > /dev/null
