#!/usr/bin/env python3
"""Usage: seed.py SPECFILE...   Each spec (python dict file) has id, property, needs, what, edits[(file,old,new)], main (Rust source of the demo), deps.
Builds a scratch copy, confirms the plant, and writes /verif/seeded/<id>/."""
import sys,os,subprocess,json,shutil,tempfile
DEMO='''#!/bin/bash
# Builds the demo against the tree in the current directory and runs it.
set -u
export PATH="$HOME/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
koopa = { path = "$repo/koopa" }
T
%s
cd "$d" || exit 99
CARGO_TARGET_DIR="$d/t" cargo +stable build --offline -q >"$d/log" 2>&1 || { cat "$d/log"; exit 99; }
timeout 60 "$d/t/debug/demo"
'''
RL='''mkdir -p "$d/rl"; cat > "$d/rl/Cargo.toml" <<T
[package]
name = "libkoopa_rlib"
version = "0.1.0"
edition = "2024"
[lib]
path = "$repo/libkoopa/src/lib.rs"
[dependencies]
koopa = { path = "$repo/koopa" }
T
echo 'libkoopa_rlib = { path = "rl" }' >> "$d/Cargo.toml"
'''
def run(cmd,cwd,**k):
    return subprocess.run(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main(sp):
    S=eval(open(sp).read())
    sd=f"/verif/seeded/{S['id']}"
    w="/tmp/seedw"
    run(["rm","-rf",w],"/"); run(["cp","-a","/repo",w],"/")
    run(["git","checkout","--","."],w)
    for f,o,n in S['edits']:
        p=f"{w}/{f}"; t=open(p).read()
        assert t.count(o)==1,(f,o,t.count(o))
        open(p,'w').write(t.replace(o,n))
    diff=run(["git","diff"],w).stdout
    os.makedirs(sd,exist_ok=True)
    open(sd+"/patch.diff","w").write(diff)
    open(sd+"/main.rs","w").write(S['main'])
    open(sd+"/demo.sh","w").write(DEMO%(RL if S.get('libkoopa') else ''))
    os.chmod(sd+"/demo.sh",0o755)
    json.dump({"property":S['property'],"needs":S['needs'],"what_it_breaks":S['what']},open(sd+"/meta.json","w"),indent=1)
    env=dict(os.environ,RUSTFLAGS="",CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS")
    ok=True
    r=run("cargo +stable build --workspace --offline && cargo +stable check --workspace --all-features --offline && cargo +stable test --workspace --offline --no-fail-fast",w,shell=True,env=env)
    import re
    p=sum(int(x) for x in re.findall(r"(\d+) passed",r.stdout)); fl=sum(int(x) for x in re.findall(r"(\d+) failed",r.stdout))
    if r.returncode!=0 or fl: ok=False; print(S['id'],"TESTS FAIL",r.stdout[-1500:])
    a=run([sd+"/demo.sh"],"/repo"); b=run([sd+"/demo.sh"],w)
    if a.returncode!=0: ok=False; print(S['id'],"demo fails on clean:",a.stdout[-1500:])
    if b.returncode in (0,99): ok=False; print(S['id'],"demo rc",b.returncode,"with patch",b.stdout[-1500:])
    print(S['id'],"OK" if ok else "BAD",f"tests {p} passed; demo clean {a.returncode} patched {b.returncode}:",b.stdout.strip().splitlines()[-1:] )
    if not ok: shutil.rmtree(sd)
    run(["rm","-rf",w],"/")
for s in sys.argv[1:]: main(s)
