#!/bin/sh
# Builds the extractor and the bounded companion; the checks rebuild whatever is missing or stale.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
CARGO_TARGET_DIR="$PWD/build/vx" cargo build --offline --release -q --manifest-path tools/vx/Cargo.toml || exit 1
CARGO_TARGET_DIR="$PWD/build/driver" cargo build --offline -q --manifest-path driver/Cargo.toml || exit 1
exit 0
