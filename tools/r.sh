#!/bin/bash
# run every rig of a bin
b=/verif/target/dbg/debug/$1
for r in $($b list | cut -d' ' -f1,2 | tr ' ' : ); do n=${r%%:*}; p=${r##*:}; p=${p%%,*}; [ -n "$2" ] && [ "$2" != $n ] && continue; ( time $b run --prop ${P:-$p} --rig $n ) 2>&1 | cut -c1-${W:-500} | grep -v -e sys -e user -e '^$' -e '"evaluations":0' -e 'real.*0m0.00'; done
