#!/bin/bash
# Builds the extractor, mirrors the repository's crates and builds every replay harness.
cd "$(dirname "$0")" || exit 1
V=$PWD
(cd tools/vx && CARGO_TARGET_DIR=$V/build/vx-target cargo build --offline --release -q) || exit 1
[ "$1" = --vx ] && exit 0
python3 world/mkworld.py || exit 1
cd build/ws && CARGO_TARGET_DIR=$V/build/target RUSTUP_TOOLCHAIN=nightly cargo build --offline -q --workspace || exit 1
exit 0
