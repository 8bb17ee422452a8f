cd /repo/koopa && CARGO_TARGET_DIR=/tmp/v/exp cargo +nightly rustc --offline --lib -- -Zunpretty=expanded > /tmp/v/koopa.rs 2>/tmp/v/exp.err || tail -5 /tmp/v/exp.err
cd /repo/libkoopa && CARGO_TARGET_DIR=/tmp/v/exp cargo +nightly rustc --offline --lib -- -Zunpretty=expanded > /tmp/v/libkoopa.rs 2>/tmp/v/exp2.err || tail -5 /tmp/v/exp2.err
