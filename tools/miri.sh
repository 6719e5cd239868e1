#!/bin/bash
# Runs the C32 program under Miri: miri.sh <arguments>. The schedule follows VT_MIRI_SEED.
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V/thr" || exit 2
export MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check -Zmiri-ignore-leaks -Zmiri-seed=${VT_MIRI_SEED:-0}" RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true
exec cargo +nightly miri run --offline -q --target-dir "$V/target-miri" -- "$@"
