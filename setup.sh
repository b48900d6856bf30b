#!/bin/bash
# Builds the extractor and the replay harness, offline.
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
(cd tool && cargo build --release --offline 2>&1 | tail -2)
(cd harness && cargo build --release --offline 2>&1 | tail -2)
test -x tool/target/release/vx
