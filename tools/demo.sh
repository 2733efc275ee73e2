#!/bin/bash
# Builds demo.rs against the crate in the current directory, in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ikal = { path = "$PWD" }
chrono = { version = "0.4", default-features = false, features = ["clock", "std"] }
T
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
export TZ=CET CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" && timeout 250 cargo run --offline -q
