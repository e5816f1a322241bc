#!/bin/bash
# Builds the framework (and, with it, /repo's crate) offline.
set -e
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
mkdir -p target
cargo build --offline --manifest-path harness/Cargo.toml
cargo build --offline --profile plain --manifest-path harness/Cargo.toml
CARGO_TARGET_DIR="$PWD/target/example" cargo build --offline --manifest-path /repo/example-server/Cargo.toml
CARGO_TARGET_DIR="$PWD/target/nostd" cargo build --offline --manifest-path harness-nostd/Cargo.toml
