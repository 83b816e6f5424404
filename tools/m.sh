#!/bin/bash
# run a bin under Miri: m.sh bin prop mult [rig]
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks" CARGO_TARGET_DIR=/verif/target/miri CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd /verif/harness
cargo +nightly miri run -q --no-default-features --features plain --bin $1 -- list >/dev/null
for s in 0 1 2 3 4 5 6 7; do (timeout ${T:-600} /usr/bin/time -f "%es" cargo +nightly miri run -q --no-default-features --features plain --bin $1 -- run --prop $2 --tier quick --seed ${S:-1} --shard $s --nshards 8 --mult $3 ${4:+--rig $4} 2>&1 | cut -c1-${W:-300} | head -${H:-30}) & done; wait
