#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, specs.py, tools/design_tail.md, seeded/ and tools/caught.json."""
import json, pathlib, sys
R = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(R), str(R / "tools")]
import specs
from design_plan import plan
caught = json.loads((R / "tools/caught.json").read_text())
na = json.loads((R / "tools/not_applicable.json").read_text())
out = [(R / "tools/design_head.md").read_text(), ""]
for l in (R / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)
    i = p["id"]
    if i in specs.CLAIMED:
        s = specs.SPECS[i]
        out.append("**%s %s.** %s. *Bounds:* %s. *Outside:* %s.\n" % (i, p["title"], plan[i], s["bounds"], s["outside"]))
    else:
        out.append("**%s %s.** Not claimed: %s\n" % (i, p["title"], na.get(i, "no check completed.")))
out.append((R / "tools/design_tail.md").read_text())
out.append("| planted bug | property | needs | quick check |\n|---|---|---|---|")
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append("| %s | %s | %s | %s |" % (d.name, m["property"], m["needs"].replace("|", "/"), caught.get(d.name, "not tried")))
(R / "DESIGN.md").write_text("\n".join(out) + "\n")
