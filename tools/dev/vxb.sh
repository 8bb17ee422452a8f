cd /verif/tools/vx && CARGO_TARGET_DIR=/tmp/vxt cargo build --offline --release 2>&1 | grep -E "^error" -A9
