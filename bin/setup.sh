#!/bin/bash
# Builds the extractor and the probe (both are also built on demand by every check).
set -e
cd "$(dirname "$0")/.."
(cd tools/vx && CARGO_TARGET_DIR="$PWD/../../target/vx" cargo build --offline -q)
(cd tools/probe && CARGO_TARGET_DIR="$PWD/../../target/probe" cargo build --release --offline -q)
