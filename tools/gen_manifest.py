#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and proofs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import proofs
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    lvl = proofs.LEVEL(i)
    eng = []
    if proofs.PROOFS.get(i): eng.append("Verus contracts on functions extracted from /repo on every run (units: %s)" % ", ".join(sorted({u for u, _ in proofs.PROOFS[i]})))
    if proofs.KANI.get(i): eng.append("Kani full-domain harnesses (%s)" % ", ".join(proofs.KANI[i]))
    eng.append("bounded differential sessions against an executable specification (stand-in / failing-input search)")
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
        technique="contract-based deductive verification: " + "; ".join(eng) if lvl == "proof" else "bounded stand-in for deductive verification: " + "; ".join(eng),
        level=lvl, level_note=proofs.NOTE(i)))
m = dict(version=1, setup_cmd="(cd vex && cargo build --offline --quiet) && (cd native && cargo build --offline --quiet && RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=target/expanded cargo rustc --offline --quiet -p gdbstub --lib -- -Zunpretty=expanded >/dev/null)", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the proofs read its source, the sessions use its public API. Genuine defects are repaired by 'fix:' commits or listed in known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
