#!/bin/bash
# rustc for the in-process simulator. The library under test gets
# CHANO_SAN=access: a callback at every branch and memory access (scheduling points, and which branches ran)
# CHANO_SAN=cover:  counters of the branches that ran (pcs: and a table of their addresses)
lib=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && [ "$a" = chanoma ] && lib=1
    prev=$a
done
if [ -n "$lib" ]; then
    set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3
    if [ "$CHANO_SAN" = access ]; then
        set -- "$@" -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
    else
        set -- "$@" -Cllvm-args=-sanitizer-coverage-inline-8bit-counters
        [ "$CHANO_SAN" = pcs ] && set -- "$@" -Cllvm-args=-sanitizer-coverage-pc-table
    fi
fi
exec "$@"
