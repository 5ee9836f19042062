#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties_src.py."""
import json, pathlib, subprocess, sys
R = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(R), str(R / "tools")]
import specs
props = [json.loads(l) for l in (R / "properties.jsonl").read_text().splitlines()]
na = json.loads((R / "tools/not_applicable.json").read_text())
checks = []
for p in props:
    i = p["id"]
    if i not in specs.CLAIMED:
        continue
    s = specs.SPECS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": s.get("technique", "bounded symbolic execution of the real code (Kani MIR to CBMC, SAT), counterexamples replayed natively"),
        "level": "other",
        "level_note": "Decided by a SAT/SMT solver for every input within the bounds. Bounds: %s. Outside: %s. Assumes: %s" % (
            s["bounds"], s["outside"], "; ".join(s["assumptions"]) or "the common assumptions in specs.py"),
    })
m = {"version": 1, "setup_cmd": "python3 setup_check.py",
     "hooks": {"guard": "cargo feature `verif` of sia_sdk", "enable": "the crates /verif/kani and /verif/replay depend on /repo/sia with features = [\"verif\"]",
               "source_commits": ["e03a399", "46892cc"]},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "not claimed: no check has been completed for it yet")}
                        for p in props if p["id"] not in specs.CLAIMED]}
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
