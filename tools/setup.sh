#!/bin/bash
# Builds the harness once, to see that it builds; every check builds it again against the tree it finds.
cd "$(dirname "$0")/.." || exit 2
mkdir -p out evidence
RUSTFLAGS=-Awarnings cargo build --offline -q --manifest-path harness/Cargo.toml --target-dir "$PWD/target"
