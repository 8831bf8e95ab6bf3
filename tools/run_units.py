#!/usr/bin/env python3
"""development aid: verify every unit (or the named ones) against REPO (default /repo)"""
import os, re, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import proofs
repo = os.environ.get("REPO", "/repo")
d = tempfile.mkdtemp()
o = subprocess.run(["cargo", "rustc", "--offline", "--quiet", "-p", "gdbstub", "--lib", "--", "-Zunpretty=expanded"], cwd=V + "/native", env=dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=V + "/native/target/expanded"), capture_output=True, text=True).stdout
open(d + "/e.rs", "w").write(o)
os.environ["VEX_EXPANDED"] = d + "/e.rs"
# SEED=n: another solver seed, to find proofs which hang by a thread
SEED = sum((["--smt-option", "%s=%s" % (o, os.environ["SEED"])] for o in ("smt.random_seed", "sat.random_seed")), []) if os.environ.get("SEED") else []
def one(u):
    p = os.path.join(d, u + ".rs")
    f = proofs.UNITS[u]
    x = subprocess.run([V + "/vex/target/debug/vex", repo, V + "/units/%s.vx" % u, p] + ([f] if f else []), capture_output=True, text=True)
    if x.returncode: return u, "LOST " + x.stderr.strip()
    open(p, "a").write("} fn main(){}\n")
    x = subprocess.run(["verus", p] + SEED, cwd=d, capture_output=True, text=True)
    m = re.search(r"verification results.*", x.stdout + x.stderr)
    return u, (m.group(0) if m else "NO RESULT") + ("" if x.returncode == 0 else "\n" + x.stderr[-1500:])
with cf.ThreadPoolExecutor(4) as ex:
    for u, r in ex.map(one, sys.argv[1:] or list(proofs.UNITS)): print(u, r, flush=True)
