#!/bin/bash
# Runs vmi (see src/main.rs) in the Miri interpreter: aliasing (Tree Borrows), bounds, initialization,
# alignment, invalid values, and overflow and debug assertions.
here=$(cd "$(dirname "$0")/.." && pwd)
unset RUSTUP_TOOLCHAIN
export CARGO_TARGET_DIR=$here/target/miri MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-disable-data-race-detector -Zmiri-provenance-gc=2000"
export RUSTFLAGS="-Awarnings"
exec cargo +nightly miri run -q --offline --manifest-path "$here/miri/Cargo.toml" --bin vmi -- "$@"
