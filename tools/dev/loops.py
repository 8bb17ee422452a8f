#!/usr/bin/env python3
"""Records, per unit, what the loops of every contracted function iterate over (units/loops/UNIT.txt),
so that loops found in another order can be matched with their invariants.  Run on the unchanged tree,
after expand.sh."""
import glob, json, os, subprocess
V = "/verif"
os.makedirs(V + "/units/loops", exist_ok=True)
for u in sorted(glob.glob(V + "/units/*.vx")):
    n = os.path.basename(u)[:-3]
    r = subprocess.run(["/tmp/vxt/release/vx", "--src", "koopa=/tmp/v/koopa.rs", "--src", "libkoopa=/tmp/v/libkoopa.rs", "--header",
                        "/repo/libkoopa/include/koopa.h", "--unit", u, "--out", "/tmp/v/_l.rs", "--meta", "/tmp/v/_l.json"], capture_output=True, text=True)
    if r.returncode:
        print(n, r.stderr.strip()[-200:])
        continue
    out = [x["id"] + "\t" + "\t".join(x["loops"]) for x in json.load(open("/tmp/v/_l.json")) if x["kind"] == "fn" and len(x["loops"]) > 1]
    f = V + "/units/loops/" + n + ".txt"
    if out:
        open(f, "w").write("\n".join(out) + "\n")
    elif os.path.exists(f):
        os.remove(f)
