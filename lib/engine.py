import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

import props

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
VX = os.path.join(CACHE, "vx", "release", "vx")
REPLAY = os.path.join(CACHE, "replay", "release", "replay")


def env(**kw):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e


class Broken(Exception):
    """the check itself cannot run (exit 2)"""


def run(cmd, timeout, cwd=None, e=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace"), time.time() - t


def build_vx():
    rc, o, err, _ = run(["cargo", "+stable", "build", "--offline", "--release", "--locked"], 600, os.path.join(VERIF, "tools/vx"),
                        env(CARGO_TARGET_DIR=os.path.join(CACHE, "vx")))
    if rc != 0:
        raise Broken("building tools/vx failed:\n" + err[-3000:])


def build_replay():
    rc, o, err, _ = run(["cargo", "+stable", "build", "--offline", "--release", "--locked"], 600, os.path.join(VERIF, "tools/replay"),
                        env(CARGO_TARGET_DIR=os.path.join(CACHE, "replay")))
    if rc != 0:
        raise Broken("building tools/replay against /repo failed:\n" + err[-3000:])


def expand(which):
    """macro expansion of a /repo crate by rustc itself"""
    d = os.path.join(CACHE, "exp")
    os.makedirs(d, exist_ok=True)
    cwd = os.path.join(REPO, "koopa" if which == "koopa" else "libkoopa")
    # touch-free: rustc prints on every run because -Zunpretty is part of the command line
    rc, o, err, _ = run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], 600, cwd,
                        env(CARGO_TARGET_DIR=os.path.join(d, "target_" + which)))
    if rc != 0 or len(o) < 1000:
        # unpretty output is not produced when cargo considers the unit fresh
        shutil.rmtree(os.path.join(d, "target_" + which), ignore_errors=True)
        rc, o, err, _ = run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], 600, cwd,
                            env(CARGO_TARGET_DIR=os.path.join(d, "target_" + which)))
    if rc != 0 or len(o) < 1000:
        raise Broken(f"macro expansion of {which} failed:\n" + err[-3000:])
    return o


ERR_TOOL = re.compile(r"(rlimit|resource limit|timed? ?out|not supported|unsupported|not yet implemented|Verus does not|internal error|panicked)", re.I)


class Unit:
    def __init__(self, name, wd):
        self.name, self.wd = name, wd
        self.skipped = {}  # fn id -> reason
        self.failed = {}  # fn id -> [message]
        self.unusable = None
        self.verified = self.errors = 0
        self.solver_ms = 0
        self.wall = 0.0
        self.fns = []
        self.vac_expected = self.vac_failed = 0
        self.rendered = ""
        self.clauses = 0

    def extract(self, out, meta, vac=False):
        cmd = [VX, "--unit", os.path.join(VERIF, "units", self.name + ".vx"), "--out", out, "--meta", meta]
        for s in ("koopa", "libkoopa"):
            cmd += ["--src", f"{s}={os.path.join(self.wd, s + '.rs')}"]
        cmd += ["--header", os.path.join(REPO, "libkoopa/include/koopa.h")]
        cmd += ["--loops", os.path.join(VERIF, "units/loops", self.name + ".txt")]
        for k in self.skipped:
            cmd += ["--skip", k]
        if vac:
            cmd.append("--vacuity")
        return run(cmd, 60)

    def verus(self, f, extra=()):
        return run(["verus", os.path.basename(f), "--error-format=json", "--output-json", "--time", "--rlimit", str(props.UNIT_RLIMIT.get(self.name, 30)),
                    "--num-threads", "2", *extra], props.UNIT_TIMEOUT, self.wd, env())

    def go(self):
        t0 = time.time()
        f = os.path.join(self.wd, self.name + ".rs")
        mf = os.path.join(self.wd, self.name + ".meta.json")
        for attempt in range(40):
            rc, o, err, _ = self.extract(f, mf)
            if rc != 0:
                m = re.search(r"vx: FN (\S+): (.*)", err)
                if m and m.group(1) not in self.skipped:
                    self.skipped[m.group(1)] = "extraction: " + m.group(2)
                    continue
                self.unusable = "extraction: " + err.strip()[-500:]
                return self
            meta = json.load(open(mf))
            self.fns = [x for x in meta if x["kind"] == "fn"]
            rc, o, err, _ = self.verus(f)
            if rc == 124:
                self.unusable = f"verifier did not finish in {props.UNIT_TIMEOUT} s"
                return self
            try:
                js = json.loads(o)
                vr = js["verification-results"]
            except Exception:
                js, vr = None, {"encountered-vir-error": True, "success": False}
            diags = []
            for l in err.splitlines():
                try:
                    d = json.loads(l)
                except Exception:
                    continue
                if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                    diags.append(d)
            compile_err = vr.get("encountered-vir-error") or js is None or "verified" not in vr or any(d.get("code") for d in diags)
            refuted = [d for d in diags if "which evaluates to false" in d["message"]]
            if compile_err and js is not None and refuted and len(refuted) == len(diags):
                # an obligation decided by evaluation is false
                L = open(f).read().split("\n")
                for d in refuted:
                    n = d["spans"][0]["line_start"] if d.get("spans") else 1
                    k = next((m.group(1) for x in reversed(L[:n]) if (m := re.match(r"\s*(?:pub )?proof fn (\w+)", x))), "(lemma)")
                    self.failed.setdefault(k, []).append(d["message"] + self.clause(d, "\n".join(L)))
                    self.rendered += d.get("rendered", "") + "\n"
                self.verified, self.errors, self.solver_ms = 0, len(refuted), 0
                self.wall = time.time() - t0
                return self
            if compile_err:
                hit = set()
                for d in diags:
                    k = self.locate(d)
                    if k:
                        hit.add((k, d["message"]))
                hit = [(k, m) for k, m in hit if k not in self.skipped]
                if not hit:
                    self.unusable = "verifier front end: " + "; ".join(d["message"] for d in diags[:3])[:500]
                    return self
                for k, m in hit:
                    self.skipped[k] = "verifier front end: " + m[:300]
                continue
            self.verified, self.errors = vr["verified"], vr["errors"]
            self.solver_ms = js["times-ms"]["smt"]["smt-run"]
            text = open(f).read()
            self.clauses = len(re.findall(r"\b(?:requires|ensures|invariant|invariant_except_break|decreases)\b", text))
            undecided = {}
            for d in diags:
                k = self.locate(d) or "(lemma or template code)"
                msg = d["message"] + self.clause(d, text)
                # loops in another order than the invariants were written for
                moved = any(x["id"] == k and x.get("realigned") for x in self.fns)
                if moved:
                    msg = "loops reordered: " + msg
                if moved or ERR_TOOL.search(d["message"]):
                    undecided.setdefault(k, []).append(msg)
                else:
                    self.failed.setdefault(k, []).append(msg)
                    self.rendered += d.get("rendered", "") + "\n"
            for k, m in undecided.items():
                if k not in self.failed:
                    self.skipped[k] = "; ".join(m)[:400]
            self.wall = time.time() - t0
            break
        else:
            self.unusable = "too many functions outside the verifier's reach"
            return self
        if not self.failed:
            self.vacuity()
        self.wall = time.time() - t0
        return self

    def locate(self, d):
        for s in sorted(d.get("spans", []), key=lambda s: not s["is_primary"]):
            for x in self.fns:
                if s["file_name"].endswith(self.name + ".rs") and x["start"] <= s["line_start"] < max(x["end"], x["start"] + 1):
                    return x["id"]
        return None

    def clause(self, d, text):
        L = text.split("\n")
        for s in d.get("spans", []):
            if s["is_primary"] and s["line_end"] - s["line_start"] < 6:
                return ": " + " ".join(x.strip() for x in L[s["line_start"] - 1:s["line_end"]])[:300]
        return ""

    def vacuity(self):
        """every contracted body and loop must be reachable under its contract"""
        f = os.path.join(self.wd, self.name + "_vac.rs")
        rc, o, err, _ = self.extract(f, f + ".json", vac=True)
        if rc != 0:
            return
        exp = {i + 1 for i, l in enumerate(open(f).read().split("\n")) if l.startswith("assert(false); // vacuity")}
        rc, o, err, _ = self.verus(f, ["--multiple-errors", "30"])
        got = set()
        for l in err.splitlines():
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error":
                for s in d["spans"]:
                    got.add(s["line_start"])
        self.vac_expected = len(exp)
        self.vac_failed = len(exp & got)
        missing = exp - got
        if missing:
            metas = json.load(open(f + ".json"))
            for ln in missing:
                for x in metas:
                    if x["kind"] == "fn" and x["start"] <= ln <= x["end"]:
                        ok = props.VACUITY_OK.get((self.name, x["id"]))
                        if not ok:
                            self.skipped.setdefault(x["id"], "vacuity guard: the contract may be unsatisfiable here (line %d)" % ln)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def replay(pid, seed, budget, wd, tag):
    out = os.path.join(wd, f"replay_{tag}.json")
    rc, o, err, w = run([REPLAY, pid, "--seed", str(seed), "--budget-ms", str(int(budget * 1000)), "--out", out], budget * 3 + 120, wd)
    if os.path.exists(out):
        r = json.load(open(out))
        r["rc"] = rc
        r["stderr"] = err[-2000:]
        if rc not in (0, 1):
            # died on a case: the last case in flight is in the .cur file
            cur = out + ".cur"
            case = open(cur).read() if os.path.exists(cur) else "(unknown case)"
            r.setdefault("failures", []).append({"key": "crash", "what": f"process ended with status {rc} (crash or hang) on: {case}", "stderr": err[-1500:]})
        return r
    cur = out + ".cur"
    if os.path.exists(cur):
        case = open(cur).read()
        return {"evaluations": 0, "distinct": 0, "rule": "", "samples": [], "rc": rc, "stderr": err[-2000:],
                "failures": [{"key": "crash", "what": f"process ended with status {rc} (crash or hang) on: {case}", "stderr": err[-1500:]}]}
    raise Broken(f"replay harness produced no result (rc {rc}):\n" + err[-2000:])


TRUST_RE = re.compile(r"external_body|assume\(|admit\(|assume_specification|axiom")


def scan_trusted(units):
    """mechanical scan of the templates for everything accepted without proof"""
    res = []
    seen = set()

    def load(p):
        for l in open(p):
            m = re.match(r"\s*//@ include (\S+)", l)
            if m:
                yield from load(os.path.join(os.path.dirname(p), m.group(1)))
            else:
                yield l
    for u in units:
        lines = list(load(os.path.join(VERIF, "units", u + ".vx")))
        for i, l in enumerate(lines):
            if TRUST_RE.search(l) and not l.strip().startswith("//"):
                if "external_body" in l or "axiom" in l:
                    nxt = ""
                    for k in lines[i:i + 6]:
                        m = re.search(r"\b(?:fn|struct)\s+(\w+)", k)
                        if m:
                            nxt = m.group(0)
                            break
                    d = f"trusted contract: {nxt}"
                else:
                    d = "assumption: " + l.strip()
                if d not in seen:
                    seen.add(d)
                    res.append(d)
    return res


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return decide(pid, tier, seed, t0)
    except Broken as b:
        print(f"check {pid}: cannot run: {b}", file=sys.stderr)
        return 2


def decide(pid, tier, seed, t0):
    P = props.PROPS[pid]
    wd = os.path.join(CACHE, "work", pid)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    with cf.ThreadPoolExecutor(8) as ex:
        jobs = []
        if P["units"]:
            jobs.append(ex.submit(build_vx))
        fr = ex.submit(build_replay) if P.get("replay") else None
        srcs = {s: ex.submit(expand, s) for s in (("koopa", "libkoopa") if P["units"] else ())}
        for j in jobs:
            j.result()
        for s, f in srcs.items():
            open(os.path.join(wd, s + ".rs"), "w").write(f.result())
        futs = [ex.submit(Unit(u, wd).go) for u in P["units"]]
        units = [f.result() for f in futs]
        if fr:
            fr.result()

    failed, undecided = {}, {}
    for u in units:
        for k, v in u.failed.items():
            failed[f"{u.name}/{k}"] = v
        for k, v in u.skipped.items():
            undecided[f"{u.name}/{k}"] = v
        if u.unusable:
            undecided[f"{u.name}/*"] = u.unusable
    expected = [u for u in units if not u.unusable and not u.fns]
    if expected:
        raise Broken("no function extracted for " + ", ".join(u.name for u in expected))

    rep = None
    if P.get("replay"):
        budget = P.get("budget", 20) if tier == "quick" else P.get("thorough_budget", 240)
        rep = replay(pid, seed, budget, wd, "main")
        if not rep["failures"] and (failed or (undecided and tier == "quick")):
            # an obligation failed or is undecided: search longer for a concrete input
            r2 = replay(pid, seed + 1000, 120 if failed else 45, wd, "search")
            rep["failures"] += r2["failures"]
            rep["evaluations"] += r2["evaluations"]
            rep["distinct"] += r2["distinct"]

    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    violations = []
    kf_lines = []
    hit_known = set()
    for f in (rep["failures"] if rep else []):
        m = next((k for k in known if k["key"] == f["key"]), None)
        if m:
            hit_known.add(m["key"])
        else:
            violations.append(f)
    for k in known:
        kf_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}" + ("" if k["key"] in hit_known else " (not re-triggered by this run)"))

    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    under_contract = [f"{u.name}/{x['id']}" for u in units for x in u.fns if not x["skipped"]]
    trusted = scan_trusted(P["units"]) + P.get("trusted", [])
    rewrites = sorted({r for u in units for x in u.fns for r in x["rewrites"]})
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": f"./check {pid}  (vx extraction; verus <unit>.rs --rlimit 30; units: {', '.join(P['units'])})",
        "trusted_base": trusted + ["Verus, Z3 and rustc", "tools/vx rewrites (listed under rewrites)"],
        "functions_under_contract": len(under_contract),
        "functions": under_contract,
        "contract_clause_groups": sum(u.clauses for u in units),
        "back_end": "Verus / Z3",
        "solver_ms": sum(u.solver_ms for u in units),
        "vacuity_guard": {"points": sum(u.vac_expected for u in units), "reachable": sum(u.vac_failed for u in units)},
        "failed_obligations": failed,
        "undecided_functions": undecided,
        "rewrites": rewrites,
        "not_under_contract": P.get("outside", []),
    }
    if rep:
        cov["bounded_stand_in"] = {
            "label": "bounded: never counted as proved",
            "evaluations": rep["evaluations"],
            "distinct_nontrivial": rep["distinct"],
            "rule": rep["rule"],
            "samples": rep["samples"][:5],
        }
        cov["evaluations"] = rep["evaluations"]
        cov["distinct_nontrivial"] = rep["distinct"]
        cov["rule"] = rep["rule"]
        cov["samples"] = rep["samples"][:5]
    nviol = len(violations) + (1 if failed and not violations else 0)
    level = P.get("level", "proof")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": P.get("assumptions", []) + trusted,
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

    for l in kf_lines:
        print(l)
    for k, v in undecided.items():
        print(f"UNDECIDED {k}: {v} -- bounded stand-in only")
    print(f"{pid}: {discharged}/{obligations} verifier queries discharged over {len(under_contract)} functions"
          + (f"; bounded search: {rep['evaluations']} cases" if rep else ""))
    if nviol == 0:
        return 0
    rd = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, pid + ".json")
    json.dump({
        "property": pid,
        "failing_inputs": violations,
        "failed_obligations": failed,
        "verifier_output": "\n".join(u.rendered for u in units)[:200000],
        "rerun": f"./check {pid}; or: .cache/replay/release/replay {pid} --seed {seed} --case '<key of the failing input>'",
    }, open(rp, "w"), indent=1)
    for k, v in failed.items():
        print(f"FAILED OBLIGATION {k}: {v[0][:400]}")
    for f in violations[:5]:
        print(f"FAILING INPUT [{f['key']}]: {f['what'][:600]}")
    if violations:
        print(f"VIOLATION property={pid} replay={rp}")
    else:
        print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    return 1
