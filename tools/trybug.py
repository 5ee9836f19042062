#!/usr/bin/env python3
"""trybug.py [ID...]: apply each seeded patch to /repo, run its property's quick check, undo. Prints caught / missed."""
import json, pathlib, subprocess, sys
V = pathlib.Path("/verif")
for d in sorted((V / "seeded").iterdir()):
    if sys.argv[1:] and not any(a in d.name for a in sys.argv[1:]):
        continue
    m = json.loads((d / "meta.json").read_text())
    subprocess.check_call(["git", "-C", "/repo", "apply", str(d / "patch.diff")])
    try:
        r = subprocess.run(["python3", "check.py", m["property"]], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    last = r.stdout.strip().splitlines()
    print(d.name, m["property"], "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, [l for l in last if "VIOLATION" in l or "no verdict" in l][:1], last[-1][:12], flush=True)
