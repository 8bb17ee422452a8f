cd /verif/tools/replay; cargo build --offline --release --target-dir /verif/.cache/replay 2>&1 | grep -E '^error' -A9 | head -${LINES_MAX:-60}
for p in "$@"; do echo "== $p"; timeout 300 /verif/.cache/replay/release/replay $p --seed ${SEED:-3} --budget-ms ${MS:-8000} --out /tmp/w/$p.json; echo rc $?; jq -r '.evaluations, (.failures[]|(.key+": "+.what))' /tmp/w/$p.json|head -${LINES_MAX:-60}; done
