#!/bin/bash
# Builds the framework: the exploration harness (against /repo's tree) and vx, the extractor.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd vx && CARGO_TARGET_DIR=../target/vx cargo build --offline -q) &
(cd harness && RUSTFLAGS="--cfg gp_verif -Awarnings" CARGO_TARGET_DIR=../target/h cargo build --offline -q)
wait $!
