#!/bin/bash
# build+test+commit /repo with message $1
cd /repo
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1 || { tail -40 /tmp/w/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/t.log 2>&1
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/w/t.json'))
bp=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
tp=set(t.get('passed') or [])
print(len(bp),len(tp),sorted(bp-tp)[:5])
assert bp and not (bp-tp)
P
git diff --stat
[ -n "$1" ] && git commit -qam "$1" && git log --oneline | head -1
