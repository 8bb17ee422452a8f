#!/bin/sh
# Builds the extractor and the replay harness from the committed files (each check rebuilds what changed).
set -e
cd "$(dirname "$0")"
export PATH="$HOME/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
(cd tools/vx && CARGO_TARGET_DIR=../../.cache/vx cargo +stable build --offline --release --locked)
(cd tools/replay && CARGO_TARGET_DIR=../../.cache/replay cargo +stable build --offline --release --locked)
