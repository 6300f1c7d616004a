#!/usr/bin/env python3
"""Decide one property of graphql-parser:  check.py Cxx [--tier quick|thorough] [--no-proof] [--no-explore]

The deciding step is Verus on the obligations generated from /repo's current source (see DESIGN.md):
vx extracts the functions a proof is about, Verus discharges or refuses every obligation.  Beside it
the harness runs the real crate on generated inputs against an independent reference; it supplies the
failing input for a violation, and is the (bounded) stand-in for what is not under contract."""
import sys, os, json, subprocess, time, re, threading, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
sys.path.insert(0, HERE)
from proofs.tracks import TRACKS, PROPS, SHARED

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def build(which, env_extra=None):
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, {"harness": "h", "vx": "vx"}[which])
    if which == "harness":
        env["RUSTFLAGS"] = "--cfg gp_verif -Awarnings"
    r = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(HERE, which), env=env)
    if r.returncode:
        print("cannot build %s:\n%s" % (which, r.stderr[-4000:]), file=sys.stderr)
        sys.exit(2)
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", {"harness": "gpharness", "vx": "vx"}[which])

# ---------------------------------------------------------------- harness
class Explore:
    def __init__(self, exe, prop, tier, seed, rdir, seconds):
        self.exe, self.prop, self.tier, self.seed, self.rdir, self.seconds = exe, prop, tier, seed, rdir, seconds
        self.fail = None      # (replay path, detail)
        self.data = None
        self.error = None

    def once(self, extra, limit):
        cmd = [self.exe, self.prop, "--tier", self.tier, "--seed", str(self.seed),
               "--replay-dir", self.rdir, "--seconds", str(self.seconds)] + extra
        cmd = ["bash", "-c", 'ulimit -v 12000000; exec "$@"', "x"] + cmd
        try:
            return sh(cmd, timeout=limit)
        except subprocess.TimeoutExpired:
            return None

    def run(self):
        r = self.once([], self.seconds + 120)
        if r is not None and r.returncode == 0:
            self.data = json.loads(r.stdout)
            return
        if r is not None and r.returncode == 1:
            m = re.search(r"^FAIL (.*)$", r.stdout, re.M)
            if m:
                self.fail = (m.group(1), r.stdout[:3000])
                return
        # the process died (stack, memory) or did not end: find the case that did it
        tr = os.path.join(self.rdir, self.prop + ".trace")
        r = self.once(["--trace", tr], self.seconds + 120)
        if r is not None and r.returncode in (0, 1, 3):
            self.error = "harness ended with %s\n%s" % (r.returncode, r.stderr[-2000:])
            return
        try:
            d = open(tr, errors="replace").read()
            assert "text_hex" in d
        except Exception as e:
            self.error = "harness died and left no trace (%s)" % e
            return
        p = os.path.join(self.rdir, self.prop + ".json")
        os.replace(tr, p)
        self.fail = (p, "the process was killed (stack or memory exhausted, or abort) while evaluating this case")

# ---------------------------------------------------------------- proofs
DEFINITE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
            "could not prove termination", "loop invariant", "unreachable", "recommendation not met",
            "possible bit shift underflow/overflow", "constructed value may fail to meet its declared type invariant",
            "unable to prove", "failed")
UNDECIDED = ("resource limit", "rlimit", "timed out", "timeout", "canceled")

def verus(path, extra, limit, lock=None):
    cmd = ["verus", path, "--output-json", "--time", "--error-format=json", "--num-threads", "4"] + extra
    t0 = time.time()
    try:
        r = sh(cmd, timeout=limit, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return dict(state="undecided", why="verifier ran longer than %d s" % limit, failed=[], seconds=time.time() - t0)
    res = dict(seconds=time.time() - t0, failed=[], undecided=[], other=[])
    try:
        j = json.loads(r.stdout[r.stdout.index("{"):])
    except Exception:
        j = {}
    v = j.get("verification-results", {})
    res["verified"], res["errors"] = v.get("verified", 0), v.get("errors", 0)
    tm = j.get("times-ms", {})
    res["smt_ms"] = tm.get("smt", {}).get("total") if isinstance(tm.get("smt"), dict) else None
    for line in r.stderr.splitlines():
        try:
            d = json.loads(line)
        except Exception:
            continue
        if d.get("level") != "error":
            continue
        m = d.get("message", "")
        if m.startswith("aborting due to"):
            continue
        item = dict(message=m, lines=[s["line_start"] for s in d.get("spans", []) if s.get("is_primary")] or
                    [s["line_start"] for s in d.get("spans", [])],
                    all_lines=[s["line_start"] for s in d.get("spans", [])], rendered=d.get("rendered", "")[:2000])
        low = m.lower()
        if any(u in low for u in UNDECIDED):
            res["undecided"].append(item)
        elif v and not v.get("encountered-vir-error") and any(u in low for u in DEFINITE):
            res["failed"].append(item)
        else:
            res["other"].append(item)
    if v.get("success") and res["verified"] > 0 and not (res["failed"] or res["undecided"] or res["other"]):
        res["state"] = "proved"
    elif v.get("encountered-vir-error") or not v or res["other"]:
        res["state"] = "unsupported"
        res["why"] = (res["other"][0]["rendered"] if res["other"] else (r.stderr[-1500:] or r.stdout[-500:]))
    elif res["failed"]:
        res["state"] = "failed"
    else:
        res["state"] = "undecided"
        res["why"] = res["undecided"][0]["message"] if res["undecided"] else "no verdict"
    return res

class Proof:
    def __init__(self, vx, name, bdir, tier):
        self.vx, self.name, self.bdir, self.tier = vx, name, bdir, tier
        self.t = TRACKS[name]
        self.r = None
        self.t0 = time.time()

    def run(self):
        out = os.path.join(self.bdir, self.name + ".rs")
        r = sh([self.vx, os.path.join(HERE, "proofs", self.t["template"]), "/repo", out])
        if r.returncode:
            self.r = dict(state="lost-anchor", why=(r.stderr or r.stdout)[-2000:], failed=[], seconds=0, verified=0)
            return
        self.map = json.load(open(out + ".map.json"))
        extra = list(self.t.get("args", []))
        room = self.t.get("rlimit", 10)
        self.r = verus(out, extra + ["--rlimit", str(room)], self.t.get("limit", 400))
        if self.r["state"] in ("failed", "undecided") and self.t.get("retry", True):
            # a proof that fails once may be a matter of solver luck: once more, with more room
            left = max(60, min(self.t.get("limit", 400), 640 - (time.time() - self.t0)))
            r2 = verus(out, extra + ["--rlimit", str(room * 4)], left)
            if r2["state"] != "undecided" or self.r["state"] == "undecided":
                r2["seconds"] += self.r["seconds"]
                self.r = r2
        for f in self.r["failed"]:
            f["fn"] = self.where(f)
        self.scan = scan(open(out).read())

    def where(self, item):
        cand = []
        for l in item["all_lines"]:
            for m in self.map["functions"]:
                if m["first"] <= l <= m["last"]:
                    cand.append(m)
        real = [m for m in cand if m.get("from")]
        m = (real or cand or [None])[0]
        return m and (m["name"] + (" (from %s)" % m["from"] if m.get("from") else ""))

def concerns(pattern, fn):
    """is the obligation's function the named one?  NAME, or PREFIX*"""
    name = fn.split(" ")[0].split("::")[-1]
    return name.startswith(pattern[:-1]) if pattern.endswith("*") else name == pattern

def scan(text):
    """every assumption in a generated file"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if re.search(r"\b(assume|admit)\s*\(", s):
            out.append("line %d: %s" % (i + 1, s[:120]))
        if "external_body" in s or "assume_specification" in s or "axiom fn" in s or "uninterp" in s or "external_fn_specification" in s:
            j = i
            while j < len(lines) - 1 and not re.search(r"\b(fn|struct|enum|assume_specification)\b", lines[j]):
                j += 1
            out.append(re.sub(r"\s+", " ", lines[j].strip())[:140])
    return sorted(set(out))

# ---------------------------------------------------------------- main
def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    spec = PROPS[prop]
    rdir = os.path.join(HERE, "replay")
    bdir = os.path.join(HERE, "build", prop)
    for d in (rdir, bdir, os.path.join(HERE, "evidence")):
        os.makedirs(d, exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    names = [] if "--no-proof" in args else spec.get("tracks", [])
    exe = build("harness")
    vx = build("vx") if names else None
    secs = spec.get("seconds", 120) if tier == "quick" else 550
    ex = Explore(exe, prop, tier, seed, rdir, secs)
    th = []
    if "--no-explore" not in args:
        th.append(threading.Thread(target=ex.run))
    sem = threading.Semaphore(3)
    proofs = [Proof(vx, n, bdir, tier) for n in names]
    def guarded(p):
        with sem:
            p.run()
    for p in proofs:
        th.append(threading.Thread(target=guarded, args=(p,)))
    for t in th:
        t.start()
    for t in th:
        t.join()

    # a failed obligation of a function this property depends on
    failed = []
    for p in proofs:
        if p.r["state"] == "failed" and p.name not in spec.get("soft", []):
            only = spec.get("only", {}).get(p.name)
            for f in p.r["failed"]:
                if only is None or f["fn"] is None or any(concerns(o, f["fn"]) for o in only):
                    kinds = spec.get("kinds")
                    if kinds and not any(k in f["message"] for k in kinds):
                        continue
                    failed.append((p, f))
    # A contract that several properties share is refused for all of them. Where another of them has a failing input
    # on the real code and this one has none, that one explains the refusal.
    explained = None
    if failed and not ex.fail and "--no-explore" not in args:
        for other in sorted({o for p, _ in failed for o in SHARED.get(p.name, [])} - {prop}):
            if time.time() - t0 > 760:
                break
            e2 = Explore(exe, other, "quick", seed, bdir, 12)
            e2.run()
            if e2.fail:
                explained = (other, e2.fail[1])
                break
    if explained:
        print("refused: %s in %s; a failing input of %s explains it: %s" % (failed[0][1]["message"], failed[0][1]["fn"], explained[0], explained[1][:300]))
        failed = []
    viol = None
    if ex.fail:
        viol = (ex.fail[0], "", "failing input found on the real crate: " + ex.fail[1])
    elif failed:
        path = os.path.join(rdir, prop + ".proof.json")
        p, f = failed[0]
        json.dump(dict(property=prop, kind="failed obligation", track=p.name, obligation=f["message"], function=f["fn"],
                       generated_file=os.path.join("build", prop, p.name + ".rs"), verifier_output=[x["rendered"] for _, x in failed][:20],
                       rerun="python3 /verif/check.py %s" % prop), open(path, "w"), indent=1)
        viol = (path, " no-failing-input-found", "obligation refused by Verus: %s in %s" % (f["message"], f["fn"]))
    elif ex.error:
        print(ex.error, file=sys.stderr)

    # evidence
    cov, assumptions = {}, []
    proved_all = bool(proofs) and all(p.r["state"] == "proved" for p in proofs)
    level = spec["level"] if (proved_all or spec["level"] != "proof") else "exploration"
    if ex.data:
        d = ex.data
        cov.update(evaluations=d["evaluations"], distinct_nontrivial=d["distinct_nontrivial"],
                   rule="bounded: generated and enumerated inputs run through the real crate and compared with an independent "
                        "reference implementation (harness/src/refimpl.rs); distinct_nontrivial counts distinct cases whose "
                        "input the property says something about (accepted by the reference, or rejected where it must be)",
                   samples=d["samples"], per_probe=d["per_probe"], capped=d["capped"], hook=d["hook"],
                   explore_seconds=d["seconds"])
    if proofs:
        cov["obligations"] = sum((p.r.get("verified") or 0) + (p.r.get("errors") or 0) for p in proofs)
        cov["discharged"] = sum(p.r.get("verified") or 0 for p in proofs)
        cov["checker_cmd"] = "verus build/%s/<track>.rs --output-json --time (Z3 back end); tracks: %s" % (prop, ", ".join(names))
        tb = []
        per = {}
        for p in proofs:
            per[p.name] = dict(state=p.r["state"], verified=p.r.get("verified"), errors=p.r.get("errors"), seconds=round(p.r["seconds"], 1),
                               smt_ms=p.r.get("smt_ms"), why=p.r.get("why", "")[:600],
                               functions=[m["from"] for m in p.map["functions"] if m.get("from")] if hasattr(p, "map") else [],
                               dropped=[d for d in p.map.get("dropped", []) if not d.startswith("inlined")] if hasattr(p, "map") else [],
                               inlined=[d[9:] for d in p.map.get("dropped", []) if d.startswith("inlined")] if hasattr(p, "map") else [])
            for s in getattr(p, "scan", []):
                if s not in tb:
                    tb.append(s)
        cov["tracks"] = per
        cov["functions_under_contract"] = sorted({f for v in per.values() for f in v["functions"]})
        cov["trusted_base"] = ["vx, the mechanical extraction (what it drops is listed per track under 'dropped')", "Verus, vstd and Z3"] + tb
        cov["not_under_contract"] = spec.get("outside", "")
    if not cov:
        cov["explanation"] = "no case was explored"
    if level == "proof" and not ex.data:
        cov.setdefault("evaluations", 0)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    json.dump(ev, open(ev_path, "w"), indent=1, ensure_ascii=False)

    listed = {}
    for l in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)$", l)
        if m and m.group(1) == prop:
            listed[m.group(2)] = m.group(3)
    for k in (ex.data or {}).get("known", []):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, listed[k]))
    for p in proofs:
        print("track %-12s %-12s obligations discharged %s, refused %s, %.1f s%s" % (
            p.name, p.r["state"], p.r.get("verified"), p.r.get("errors"), p.r["seconds"],
            "" if p.r["state"] == "proved" else "  " + (p.r.get("why") or "").strip().split("\n")[0][:200]))
    if ex.data:
        print("explored (bounded) %d cases, %d distinct and non-trivial, %.1f s" % (ex.data["evaluations"], ex.data["distinct_nontrivial"], ex.data["seconds"]))
    if viol:
        print(viol[2])
        print("VIOLATION property=%s replay=%s%s" % (prop, viol[0], viol[1]))
        sys.exit(1)
    if ex.error:
        sys.exit(2)
    if names and not proved_all:
        print("not every obligation was decided: the bounded exploration stood in, and the evidence says so")
    print("property %s held on everything explored (%s)" % (prop, level))

if __name__ == "__main__":
    main()
