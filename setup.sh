#!/bin/bash
# builds the MIR extractor and warms the two build directories (everything offline)
set -e
cd "$(dirname "$0")"
mkdir -p build evidence/replay
export CARGO_NET_OFFLINE=true
(cd mirdump && CARGO_TARGET_DIR=/verif/build/mirdump RUSTUP_TOOLCHAIN=nightly cargo build --offline)
python3-vt engine/check.py _warm
