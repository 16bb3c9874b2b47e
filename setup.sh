#!/bin/bash
# Builds the harness (the checks rebuild it from /repo's current tree as well).
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
( cd mc && cargo build --release --offline -q )
./check19.sh --build
python3 check23.py --build
