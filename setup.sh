#!/bin/bash
# builds the translator and the harness (the checks rebuild them as needed)
cd "$(dirname "$0")" && mkdir -p .build && for n in vx harness; do CARGO_TARGET_DIR="$PWD/.build/$n" cargo build --offline --quiet --manifest-path $n/Cargo.toml || exit 1; done
