#!/bin/bash
# Builds the framework from the committed files (offline). Checks rebuild what they need themselves.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cargo build --release --offline --locked --manifest-path astdump/Cargo.toml
cargo build --release --offline --locked --manifest-path harness/Cargo.toml
CARGO_TARGET_DIR=$PWD/.work/target cargo build --release --offline --locked --manifest-path /repo/Cargo.toml -p wat_server
