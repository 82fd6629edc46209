#!/bin/bash
# builds the harness once; every check builds it again from /repo's working tree
cd "$(dirname "$0")" || exit 1
CARGO_TARGET_DIR="$PWD/target" cargo build --offline --quiet --manifest-path harness/Cargo.toml || exit 1
echo built
