#!/bin/bash
# Warm the build caches (every check rebuilds what it needs anyway).
cd "$(dirname "$0")/harness" || exit 1
export CARGO_TERM_COLOR=never RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR=../target/dbg
cargo +nightly build --offline || exit 1
python3 ../tools/borrow.py warm || exit 1
cargo +nightly miri setup >/dev/null 2>&1
exit 0
