#!/bin/bash
# check.sh <ID> [quick|thorough]: builds the harness and the crates under test from /repo's tree and decides the property.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true HV_ROOT="$PWD"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
if ! (cd harness && cargo build --offline --quiet --bin hv 2> build.err); then
    cat harness/build.err >&2
    exit 2
fi
exec harness/target/debug/hv check "$1" "${2:-${VERIF_TIER:-quick}}"
