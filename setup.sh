#!/bin/bash
# builds the MIR fact extractor (offline, nightly toolchain with rustc-dev)
set -e
cd "$(dirname "$0")/driver"
RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true cargo build --release --offline 2>&1 | tail -3
test -x target/release/mirfacts
