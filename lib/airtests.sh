#!/bin/sh
# Runs air's own tests of the crates that need the stand-ins, over the stand-ins. Not a check: it
# shows how far the stand-ins behave like what they stand in for. Expected to fail:
# crates::test_crate_names (the workspace has fewer crates) and the five shell completions.
set -u
cd "$(dirname "$0")/.." || exit 1
ws=$(python3 lib/mkws.py tests) || exit 1
cp stubs/lsp.lock "$ws/Cargo.lock" 2>/dev/null
cd "$ws" || exit 1
export INSTA_UPDATE=no RUST_BACKTRACE=0 CARGO_TARGET_DIR="$ws-target" RUSTUP_TOOLCHAIN=1.94
cargo nextest run --offline --no-fail-fast -p workspace -p aether_lsp_utils -p crates -p lsp -p air 2>&1 |
    grep -E '^ *(FAIL|Summary)' | sort -u
