#!/bin/bash
# builds both variants of the explorer from /repo's working tree, offline
set -e
cd "$(dirname "$0")"
CARGO_TARGET_DIR=/verif/target/real RUSTFLAGS="-A warnings" cargo build --release --offline -q &
p=$!
CARGO_TARGET_DIR=/verif/target/small RUSTFLAGS="-A warnings --cfg vp_small" cargo build --release --offline -q
wait $p
