#!/bin/bash
# Builds the harness and, with both feature sets, the crates under test.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd harness && cargo build --offline --quiet --bin hv && cargo build --offline --quiet -p rt -p hvcap
