#!/bin/bash
# Builds the harness crate once for Kani and once natively (checks rebuild what has changed).
set -e
cd "$(dirname "$0")/.."
mkdir -p target evidence
export CARGO_NET_OFFLINE=true
( cd harness && CARGO_TARGET_DIR=../target/native RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline -q --bin replay )
python3 check.py --build
VERBOSE=1 python3-vt tools/realcheck.py --out target/real-setup.json lerp biquad
