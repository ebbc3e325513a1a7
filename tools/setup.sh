#!/bin/bash
# Builds the analyser and the analysis view of the standard library and third-party crates.
set -e
cd "$(dirname "$0")/.."
unset CARGO_ENCODED_RUSTFLAGS RUSTFLAGS RUSTUP_TOOLCHAIN
export CARGO_NET_OFFLINE=true
cargo +nightly build --release --manifest-path analyzer/Cargo.toml --target-dir .work/analyzer
python3 tools/check.py --warm
