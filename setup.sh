#!/bin/bash
# builds the extractor and the harness (the checks rebuild both when /repo changes)
set -e
cd "$(dirname "$0")"
CARGO_TARGET_DIR="$PWD/extract/target" cargo build --offline --quiet --manifest-path extract/Cargo.toml
RUSTFLAGS="-C target-cpu=x86-64-v3 --cfg panacea_verif" CARGO_TARGET_DIR="$PWD/build/target" cargo build --offline --quiet --manifest-path harness/Cargo.toml
