#!/bin/bash
# builds the framework, offline; also warms the build of the library as others use it
set -e
cd "$(dirname "$0")"
./check build
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target/ext" cargo build --offline --locked --lib --release --features extern --manifest-path /repo/Cargo.toml
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target/ext" cargo build --offline --locked --lib --manifest-path /repo/Cargo.toml
./target/release/mc aux miri
