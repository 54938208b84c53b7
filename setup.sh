#!/bin/bash
# Builds the harness once so the checks only rebuild what changed.
cd "$(dirname "$0")/harness" || exit 1
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
exec cargo build --offline --locked
