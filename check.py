#!/usr/bin/env python3
"""check.py P01  --  decide one property on /repo's current tree.

1. proof: every function the property is anchored in is extracted mechanically
   from /repo (vex), put next to its contract (units/*.vx) and verified (Verus),
   or driven by a full-domain Kani harness (kani/).
2. exploration: bounded, seeded sessions against an independent executable
   specification (native/); stands in for what has no contract and supplies
   failing inputs for obligations that no longer hold.
Exit 0 / 1 as MANIFEST.json's interface asks; anything else is an error here.
"""
import json, os, re, subprocess, sys, time, hashlib, threading, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import proofs
REPO = "/repo"
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
OUT = tempfile.mkdtemp(prefix="gdbstub-verif-")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)

def sh(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate()
        return -999, o, e

def die(msg):
    print("CHECK-ERROR property=%s %s" % (PROP, msg))
    shutil.rmtree(OUT, ignore_errors=True)
    sys.exit(2)

def build(crate):
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], 700, cwd=os.path.join(V, crate))
    return None if rc == 0 else (o + e)[-3000:]

# ------------------------------------------------------------------ Verus
PROOF_ERR = re.compile(r"^error: (postcondition not satisfied|precondition not satisfied|assertion failed|possible arithmetic underflow/overflow|possible division by zero|possible bit shift underflow/overflow|invariant not satisfied|decreases not satisfied|could not prove termination|unable to prove|loop ensures not satisfied|index out of bounds|failed this postcondition|assert_nonlinear_by|assertion not satisfied|unreachable|cannot show|possible|could not show|constructed value may fail to meet its declared type invariant|may fail|postcondition|precondition|requires not satisfied|ensures not satisfied)", re.I)
RLIMIT = re.compile(r"resource limit|rlimit", re.I)

def fn_at(lines, n):
    """name of the function whose text spans generated line n"""
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:open\s+|closed\s+|broadcast\s+|axiom\s+|uninterp\s+|proof\s+|spec\s+|exec\s+|const\s+|unsafe\s+)*fn\s+(\w+)", lines[i])
        if m: return m.group(1)
    return "?"

def verus(path, rlimit=None, seed=None, timeout=400):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "40", "--triggers-mode", "silent"]
    if rlimit: cmd += ["--rlimit", str(rlimit)]
    if seed is not None: cmd += ["--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed]
    t = time.time()
    rc, o, e = sh(cmd, timeout, cwd=os.path.dirname(path))
    r = dict(rc=rc, fns={}, errors=[], verified=0, wall=time.time() - t, smt_ms=0, other=None, cmd=" ".join(cmd))
    if rc == -999:
        r["other"] = "verus timed out"
        return r
    try: j = json.loads(o[o.index("{"):])
    except Exception:
        r["other"] = "verus gave no result: " + (o + e)[-1500:]
        return r
    lines = open(path).read().split("\n")
    blocks = re.split(r"\n(?=error|warning|note: )", "\n" + e)
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"): continue
        head = b.split("\n")[0]
        if re.match(r"error: aborting due to|error: could not compile", head): continue
        m = re.search(r"--> [^\s:]+:(\d+):\d+", b)
        line = int(m.group(1)) if m else 0
        # for a failed precondition/postcondition the primary location is the call / the exit
        names = [fn_at(lines, line)] if line else ["?"]
        kind = "rlimit" if RLIMIT.search(head) else "proof" if PROOF_ERR.match(head) else "other"
        r["errors"].append(dict(kind=kind, fn=names[0], line=line, head=head, text=b[:1800]))
    vr = j.get("verification-results", {})
    r["verified"] = vr.get("verified", 0)
    others = [x for x in r["errors"] if x["kind"] == "other"]
    if vr.get("encountered-vir-error") or (others and not any(x["kind"] != "other" for x in r["errors"])) or "verified" not in vr:
        r["other"] = "not within the verifier's reach: " + (others[0]["text"] if others else e[-1500:])
        return r
    try:
        mods = j["times-ms"]["smt"]["smt-run-module-times"]
        r["smt_ms"] = j["times-ms"]["smt"]["total"]
        for m in mods:
            for f in m.get("function-breakdown", []):
                n = f["function"]
                k = r["fns"].setdefault(n, dict(ok=True, ms=0, mode=f.get("mode", "")))
                k["ok"] &= bool(f["success"]); k["ms"] += f["time"]
    except (KeyError, TypeError): pass
    return r

def scan_trust(text):
    """everything the verifier is told rather than shows"""
    out = set()
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"): continue
        m = re.search(r"/\* proved in unit (\w+) \*/", s)
        if m:
            for k in range(i, min(i + 8, len(lines))):
                m2 = re.search(r"fn\s+(\w+)", lines[k])
                if m2: out.add("contract of %s: proved in unit %s" % (m2.group(1), m.group(1))); break
            continue
        if "external_body" in s or "external_fn_specification" in s or "assume_specification" in s or "external_type_specification" in s:
            for k in range(i, min(i + 6, len(lines))):
                m = re.search(r"(?:fn|struct|enum)\s+(\w+)", lines[k]) or re.search(r"assume_specification\s*(?:<[^>]*>)?\s*\[\s*([^\]]+?)\s*\]", lines[k])
                if m: out.add("assumed contract: " + m.group(1)); break
        m = re.search(r"\baxiom\s+fn\s+(\w+)", s)
        if m: out.add("axiom: " + m.group(1))
        if re.search(r"\bassume\s*\(", s) or re.search(r"\badmit\s*\(", s):
            out.add("assume in " + fn_at(lines, i + 1) + ": " + s[:80])
        m = re.search(r"\buninterp\s+spec\s+fn\s+(\w+)", s)
        if m: out.add("uninterpreted: " + m.group(1))
    return sorted(out)

EXPANDED = os.path.join(V, "native/target/expanded")
EXPANDED_RS = os.path.join(OUT, "expanded.rs")
def expand():
    """gdbstub after rustc's own macro expansion (the command tables are generated by macros)"""
    rc, o, e = sh(["cargo", "rustc", "--offline", "--quiet", "-p", "gdbstub", "--lib", "--", "-Zunpretty=expanded"], 300, cwd=os.path.join(V, "native"), env=dict(ENV, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=EXPANDED))
    if rc == 0 and o:
        open(EXPANDED_RS, "w").write(o)
        ENV["VEX_EXPANDED"] = EXPANDED_RS

def run_unit(u, res):
    feats = proofs.UNITS[u]
    path = os.path.join(OUT, u + ".rs")
    cmd = [os.path.join(V, "vex/target/debug/vex"), REPO, os.path.join(V, "units", u + ".vx"), path] + ([feats] if feats else [])
    rc, o, e = sh(cmd, 120)
    if rc != 0:
        res[u] = dict(state="lost", why=("extraction: " + (e or o)[-600:]), fns={}, extracted=[], trust=[])
        return
    j = json.loads(o)
    text = open(path).read() + "\n} fn main(){}\n"
    open(path, "w").write(text)
    r = verus(path)
    tries = 1
    while r["other"] is None and any(x["kind"] == "rlimit" for x in r["errors"]) and tries < 3:
        r2 = verus(path, rlimit=30 * tries, seed=tries)
        tries += 1
        if r2["other"] is None: r = r2
    # a solver that gives up once is not a failed obligation: ask again with other seeds
    for s in (7, 23):
        if r["other"] is None and r["errors"]:
            r2 = verus(path, rlimit=40, seed=s)
            tries += 1
            if r2["other"] is None and len(r2["errors"]) < len(r["errors"]): r = r2
    res[u] = dict(state="lost" if r["other"] else "run", why=r["other"], fns=r["fns"], errors=r["errors"], verified=r["verified"], extracted=j["fns"], rewrites=j.get("rewrites", []),
                  trust=scan_trust(text), smt_ms=r["smt_ms"], wall=r["wall"], cmd=r["cmd"], tries=tries)
    if r["other"] is None and not r["errors"]:
        res[u]["vacuity"] = vacuity(u, text, j["fns"])

def vacuity(u, text, fns):
    """`assert(false)` at the start of every extracted body must fail, or its
    precondition (or an axiom) is contradictory and the proof says nothing"""
    lines = text.split("\n")
    want = []
    for f in sorted(fns, key=lambda f: -f["start"]):
        seg = lines[f["start"] - 1:f["end"]]
        # vex prints the body's opening brace alone on its line
        for k, l in enumerate(seg):
            if l.strip() == "{":
                name = fn_at(lines, f["start"] + k)
                at = f["start"] - 1 + k
                lines[at] = lines[at] + " proof { assert(false); }"
                want.append((name, at + 1))
                break
    p = os.path.join(OUT, u + "_vac.rs")
    open(p, "w").write("\n".join(lines))
    r = verus(p)
    if r["other"]: return dict(checked=0, note=r["other"][:300], vacuous=[])
    hit = {x["line"] for x in r["errors"] if x["head"].startswith("error: assertion failed") or x["kind"] == "rlimit"}
    vac = [n for n, at in want if at not in hit]
    return dict(checked=len(want), vacuous=vac)

# ------------------------------------------------------------------ native
def native(ms, seed, extra=()):
    out = os.path.join(OUT, "native%d.json" % seed)
    cmd = [os.path.join(V, "native/target/debug/native"), "--prop", PROP, "--seed", str(seed), "--budget-ms", str(ms), "--out", out] + list(extra)
    rc, o, e = sh(cmd, ms / 1000 + 120)
    try: j = json.load(open(out))
    except Exception: j = None
    return rc, j, (o + e)[-3000:]

def main():
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == PROP]
    want = proofs.PROOFS.get(PROP, [])
    kani = proofs.KANI.get(PROP, [])
    berr = {}
    def b(c): berr[c] = build(c)
    ths = [threading.Thread(target=b, args=("native",))]
    if any("std" in proofs.UNITS[u] for u, _ in want): ths.append(threading.Thread(target=expand))
    if want: ths.append(threading.Thread(target=b, args=("vex",)))
    [t.start() for t in ths]; [t.join() for t in ths]
    if want and berr.get("vex"): die("cannot build vex: " + berr["vex"])
    if berr.get("native"): die("cannot build the native harness: " + berr["native"])
    # --- proofs
    res = {}
    kres = {}
    units = sorted({u for u, _ in want})
    ths = [threading.Thread(target=run_unit, args=(u, res)) for u in units]
    sem = threading.Semaphore(4)
    def kone(h):
        with sem: kres[h] = run_kani(h)
    if kani:
        import kanirun
        def run_kani(h): return kanirun.run(V, OUT, h, TIER, sh)
        ths += [threading.Thread(target=kone, args=(h,)) for h in kani]
    for i in range(0, len(ths), 6):
        [t.start() for t in ths[i:i + 6]]; [t.join() for t in ths[i:i + 6]]
    failed, undecided, proved, foreign = [], [], [], []
    extracted, trust, cmds, rewrites = [], set(), [], set()
    solver_ms = 0
    for u, rx in want:
        r = res[u]
        trust.update(r["trust"]); extracted += [u + ": " + f["fn"] for f in r["extracted"] if re.search(rx, "::" + f["fn"].split("::")[-1]) or rx == "."]
        if r["state"] == "lost":
            undecided.append("%s: %s" % (u, r["why"])); continue
        cmds.append(r["cmd"]); solver_ms += r["smt_ms"]; rewrites.update(map(str, r["rewrites"]))
        if r.get("vacuity", {}).get("vacuous"):
            # proves nothing: no verdict from this unit
            undecided.append("%s: vacuous: %s" % (u, r["vacuity"]["vacuous"])); continue
        if not r["fns"]: die("unit %s generated no obligations" % u)
        bad = {}
        for e in r["errors"]: bad.setdefault(e["fn"], []).append(e)
        for n, f in r["fns"].items():
            short = n.split("::")[-1]
            mine = re.search(rx, n)
            if not f["ok"]:
                es = bad.get(short, [])
                real = [e for e in es if e["kind"] == "proof"]
                rec = dict(unit=u, function=n, errors=es)
                if not mine: foreign.append(n)
                elif real or not es: failed.append(rec)
                else: undecided.append("%s %s: solver resource limit" % (u, n))
            elif mine: proved.append(u + "::" + n)
    for h, k in kres.items():
        solver_ms += int(k.get("ms", 0)); cmds.append(k["cmd"]); trust.update(k.get("trust", []))
        if k["state"] == "ok": proved.append("kani::" + h); extracted.append("kani: " + h + " -> " + k.get("covers", ""))
        elif k["state"] == "failed": failed.append(dict(unit="kani", function=h, errors=[dict(kind="proof", fn=h, line=0, head=k["why"].split("\n")[0], text=k["why"])]))
        else: undecided.append("kani %s: %s" % (h, k["why"]))
    # --- exploration
    budget = 22000 if TIER == "quick" else 240000
    if not proved: budget = int(budget * 1.5)
    rc, nj, log = native(budget, SEED)
    if nj is None:
        rc2, nj, log2 = native(budget, SEED + 1)
        if nj is None:
            if rc < 0 and rc2 < 0 and rc != -999:
                nj = dict(evaluations=0, distinct_nontrivial=0, samples=[], known=[], violation=dict(replay=str(SEED), kind="Crash", msg="the process died: rc %d / %d" % (rc, rc2), script=[log, log2]))
            else: die("native harness: rc %d: %s" % (rc, log))
    evals, dist = nj["evaluations"], nj["distinct_nontrivial"]
    viol = nj["violation"] if not (nj.get("hang") is False) else None
    extra_search = 0
    if failed and not viol:
        for s in range(1, 4 if TIER == "quick" else 9):
            rc, j2, log = native(40000, SEED + 1000 * s)
            extra_search += 1
            if j2:
                evals += j2["evaluations"]; dist += j2["distinct_nontrivial"]
                viol = j2["violation"] if not (j2.get("hang") is False) else None
                if viol: break
    hits = nj.get("known", [])
    for k in known:
        seen = [h for h in hits if h.startswith(k["id"])]
        if seen: print("KNOWN-FINDING: property=%s %s" % (PROP, k["what"]))
    unlisted = [h for h in hits if not any(h.startswith(k["id"]) for k in known)]
    if unlisted and not viol: viol = dict(replay="", kind="Unlisted", msg="; ".join(unlisted), script=unlisted)
    # --- evidence
    claimed = proofs.LEVEL(PROP) if hasattr(proofs, "LEVEL") else ("proof" if want or kani else "exploration")
    level = claimed if not undecided else "exploration"
    rule = ("Sessions: a random target configuration (features, threads, buffer, errors) and 1-12 stimuli (well-formed commands with edge-biased arguments, mutated and raw bytes, stop reports, interrupts) are sent to the real stub; replies, target calls, state, error class and flushes are compared with an independent executable specification. Counted are stimuli this property speaks about; non-trivial: it reached the target, got a non-empty reply or ended the session; distinct by (bytes, replies, calls, outcome)." + (" Direct calls are distinct by argument." if PROP in ("P04", "P10", "P11", "P17", "P21", "P24", "P26") else ""))
    cov = dict(evaluations=evals, distinct_nontrivial=dist, rule=rule, samples=nj["samples"] or ["(violation before a sample was kept)"])
    if want or kani:
        cov.update(obligations=len(proved) + len(failed) + len(undecided), discharged=len(proved), checker_cmd="; ".join(cmds)[:1500] or "none", trusted_base=sorted(trust) + ["Verus 0.2026.09.13 + Z3, rustc; vex extraction (tools: /verif/vex), which drops what DESIGN.md lists"] + (["Kani 0.68 / CBMC 6.11"] if kani else []),
            functions_under_contract=sorted(set(extracted)), solver_ms=solver_ms, failed=[f["unit"] + "::" + f["function"] for f in failed], undecided=[x[:500] for x in undecided], extraction_rewrites=sorted(rewrites)[:60],
            vacuity={u: res[u].get("vacuity") for u in res}, bounded_stand_in="evaluations/distinct_nontrivial above: functions of this property without a contract are only explored, within the stated bounds, not proved")
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - T0, 2), violations=1 if (viol or failed) else 0,
              assumptions=proofs.ASSUME(PROP) if hasattr(proofs, "ASSUME") else [])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", PROP + ".json"), "w"), indent=1)
    rc = 0
    if viol or failed:
        rp = os.path.join(V, "evidence", "%s.replay.txt" % PROP)
        with open(rp, "w") as f:
            if failed:
                f.write("Obligations which no longer hold on /repo:\n")
                for x in failed:
                    f.write("== %s %s\n" % (x["unit"], x["function"]))
                    for e in x["errors"]: f.write(e["text"] + "\n")
            if viol:
                f.write("\nFailing input (replay: VERIF_SEED=%d native --prop %s --replay %s):\n%s: %s\n" % (SEED, PROP, viol["replay"], viol["kind"], viol["msg"]) + "\n".join(viol["script"]) + "\n")
        for x in failed: print("failed obligation: %s %s: %s" % (x["unit"], x["function"], x["errors"][0]["head"] if x["errors"] else "not verified"))
        if viol: print("%s: %s" % (viol["kind"], viol["msg"][:2000]))
        print("VIOLATION property=%s replay=%s%s" % (PROP, rp, "" if viol else " no-failing-input-found"))
        rc = 1
    else:
        print("OK property=%s proved=%d undecided=%d explored=%d distinct=%d wall=%.1fs" % (PROP, len(proved), len(undecided), evals, dist, time.time() - T0))
        for u in undecided: print("undecided (bounded stand-in only): " + u[:300])
    shutil.rmtree(OUT, ignore_errors=True)
    sys.exit(rc)
main()
