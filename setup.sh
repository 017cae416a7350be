#!/bin/sh
# builds the analyser once, so that a toolchain problem shows early
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
CARGO_TARGET_DIR="$PWD/.build/engine" cargo +nightly build --offline --quiet --manifest-path engine/Cargo.toml
