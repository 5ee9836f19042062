#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (kept in git next to its output)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

S = "sia/src/"
exec((pathlib.Path(__file__).parent / "properties_src.py").read_text())
out = pathlib.Path(__file__).parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
