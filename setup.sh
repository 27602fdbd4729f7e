#!/bin/sh
# Builds the conformance harness once, so that the checks only rebuild what changed in /repo.
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR="$PWD/.build/target" CARGO_NET_OFFLINE=true
mkdir -p .build
cargo build --offline -q --manifest-path harness/Cargo.toml --bins || exit 1
cargo build --offline -q --release --manifest-path harness/Cargo.toml --bins || exit 1
