#!/bin/bash
# build harness; args: extra cargo args
export RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=/verif/target/dbg
cd /verif/harness && time cargo +nightly build --offline "$@" 2>&1 | grep -E "^error" -A14 | head -${L:-60}
