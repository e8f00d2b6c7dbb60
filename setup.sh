#!/bin/bash
# Builds the framework from the committed files (offline).
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
(cd vx && cargo build --offline --quiet --target-dir ../.target/vx) || exit 1
(cd harness && cargo build --offline --quiet --target-dir ../.target/harness) || exit 1
(cd kani && cargo build --offline --quiet --target-dir ../.target/kanin && timeout 600 cargo kani --lib --target-dir ../.target/kani --only-codegen >/dev/null 2>&1)
mkdir -p evidence replay
exit 0
