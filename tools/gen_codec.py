#!/usr/bin/env python3
"""Writes harness/c01.rs .. c04.rs: one harness per type and shape of layout_list.py plus the hand-written ones in *_extra.rs."""
import pathlib
import layout_list as L
R = pathlib.Path(__file__).resolve().parent.parent / "harness"
for prop, fn, lst in (("c01", "round2", L.V2), ("c03", "layout2", L.V2), ("c02", "round1", L.V1), ("c04", "layout1", L.V1)):
    v1 = prop in ("c02", "c04")
    s = "// generated by tools/gen_codec.py\nuse crate::model::*;\nuse crate::sym::*;\nuse sia::consensus::*;\nuse sia::encoding::*;\nuse sia::types::*;\nuse std::mem::ManuallyDrop;\n\n"
    for h in lst:
        name, ty, n, shape = h[:4]
        if name == 'unused_times' and prop == 'c01':
            continue
        s += "harness!(%s_%s, %d, {\n    %s::<%s, %d>(G::g(&mut C::%s(&%s)));\n    reach!(\"end\");\n});\n" % (
            prop, name, max(68, n // 16 + 4) if n > 1024 else 68, fn, ty, n, "v1i" if prop == "c02" else "v1" if v1 else "new", shape)
    # scalars: a few types per harness
    sc = L.SCALARS + ([] if v1 else L.SCALARS2)
    for k in range(0, len(sc), 7):
        s += "harness!(%s_scalar%d, 68, {\n" % (prop, k // 7)
        for nm, ty, shape in sc[k:k + 7]:
            s += "    %s::<%s, 512>(G::g(&mut C::new(&%s)));\n" % (fn, ty, shape)
        s += "    reach!(\"end\");\n});\n"
    x = R / "parts" / (prop + ".rs")
    if x.exists():
        s += "\n" + x.read_text()
    (R / (prop + ".rs")).write_text(s)

HEAD = "// generated by tools/gen_codec.py\nuse crate::model::*;\nuse crate::sym::*;\nuse sia::consensus::*;\nuse sia::types::*;\nuse std::mem::ManuallyDrop;\n\n"


def emit(prop, body):
    x = R / "parts" / (prop + ".rs")
    (R / (prop + ".rs")).write_text(HEAD + (x.read_text() + "\n" if x.exists() else "") + body)


tx1 = [(n[3:] if n.startswith("tx_") else n, sh) for n, ty, _, sh in L.V1 if ty == "v1::Transaction"] + [("two_in", [2, 1, 32, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0]), ("two_sf", [0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0])]
s17 = s18 = ""
for k, (n, sh) in enumerate(tx1):
    kinds = {"mix": "0", "two_in": "0", "sig": "7"}.get(n, str(1 << (k % 3)))
    s17 += "harness!(c17_%s, 68, {\n    ids(&%s, %s);\n    reach!(\"end\");\n});\n" % (n, sh, kinds)
    s18 += "harness!(c18_%s, 68, {\n    whole(&%s, %d);\n    reach!(\"end\");\n});\n" % (n, sh, {"sci": 2, "sfi": 1, "two_in": 3, "two_sf": 0}.get(n, k % 4))
emit("c17", s17)
emit("c18", s18)
s20 = ""
tx2 = [(n[3:], sh) for n, ty, _, sh in L.V2 if ty == "v2::Transaction"] + [
    ("fc2", [0, 0, 0, 0, 2]), ("res_sp", [0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1]), ("res_ren", [0, 0, 0, 0, 0, 0, 1, 1, 0]), ("sci2", [2, 1, 3, 1, 1, 0, 5, 1, 3, 0, 0]), ("sfi2", [0, 0, 2])]
for k, (n, sh) in enumerate(tx2):
    s20 += "harness!(c20_%s, 84, {\n    ids(&%s, %d);\n    reach!(\"end\");\n});\n" % (n, sh, (k + 1) % 4)
emit("c20", s20)
s21 = ""
for k in range(4):
    for f, a, t in (("contract", "", ""), ("renewal", "", "" if k in (0, 3) else "t_"), ("attestation", ", &%s" % [[2, 3], [0, 0], [1, 1], [3, 0]][k], "")):
        s21 += "harness!(c21_%s%s%d, 84, {\n    %s(%d%s);\n    reach!(\"end\");\n});\n" % (t, f, k, f, k, a)
emit("c21", s21)
# one transaction per list, with two elements in it, covered in the order 1, 0, 1; then all lists at once
L19 = [("sci", [2, 0, 0]), ("sco", [0, 2]), ("fc", [0, 0, 2, 1, 0, 0, 1]), ("rev", [0, 0, 0, 2, 0, 1, 0, 0, 0, 1]), ("sp", [0] * 4 + [2, 1, 0]),
       ("sfi", [0] * 5 + [2, 0, 0]), ("sfo", [0] * 6 + [2]), ("fee", [0] * 7 + [2]), ("data", [0] * 8 + [2, 1, 2]), ("sig", [0] * 9 + [2] + [0] * 11 + [2] + [1, 1] + [0] * 9 + [1])]
MIX = [1, 0, 1, 1, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 1, 1] + [0] * 11 + [1]
s19 = ""
for k, (n, sh) in enumerate(L19):
    cov = ["&[1, 0, 1]" if j == k else "&[]" for j in range(10)]
    s19 += "harness!(c19_%s, 84, {\n    partial(&%s, [%s], %d);\n    outside(&%s, %d, &[2, usize::MAX]);\n    outside(&[], %d, &[usize_()]);\n    reach!(\"end\");\n});\n" % (
        n, sh, ", ".join(cov), {0: 3, 5: 2}.get(k, k % 4), sh, k, k)
for k in range(4):
    cov = ["&[0]" if k % 2 == 0 or j % 2 == k // 2 else "&[]" for j in range(10)]
    s19 += "harness!(c19_%sall%d, 84, {\n    partial(&%s, [%s], %d);\n    reach!(\"end\");\n});\n" % ("t_" if k in (0,) else "", k, MIX, ", ".join(cov), k)
emit("c19", s19)

# short and failing writes, sources that deliver little: a representative set of shapes; any bytes: types
FHEAD = HEAD.replace("use crate::sym::*;", "use crate::fault::*;\nuse crate::sym::*;").replace("use sia::consensus", "use sia::encoding::*;\nuse sia::consensus")
bodies = {"c05": FHEAD, "c06": FHEAD, "c07": FHEAD, "c08": FHEAD}


def h(prop, name, uw, lines):
    bodies[prop] += "harness!(%s_%s, %d, {\n%s    reach!(\"end\");\n});\n" % (prop, name, uw, "".join("    %s;\n" % l for l in lines))


for w, lst, types, c in ((2, L.F2, L.A2, "new"), (1, L.F1, L.A1, "v1i")):
    for name, ty, n, shape in lst:
        g = "G::g(&mut C::%s(&%s))" % (c, shape)
        uw = max(68, n // 16 + 4) if n > 1024 else 68
        nm = ("t_" if name.startswith("t_") else "") + "v%d_" % w + name.replace("t_", "", 1)
        h("c08", nm, uw, ["drips%d::<%s, %d>(%s, %s)" % (w, ty, n, g, "true" if len(name) % 2 else "false")])
        h("c07", nm, 2 * uw, ["sinks%d::<%s, %d>(%s)" % (w, ty, n, g)])
    sc = L.FSCALARS + (L.SCALARS2 if w == 2 else [])
    for k in range(0, len(sc), 6):
        gs = [(ty, "G::g(&mut C::new(&%s))" % shape) for nm, ty, shape in sc[k:k + 6]]
        h("c08", "v%d_scalar%d" % (w, k // 6), 68, ["drips%d::<%s, 512>(%s, %s)" % (w, ty, g, "true" if k else "false") for ty, g in gs])
        h("c07", "v%d_scalar%d" % (w, k // 6), 68, ["sinks%d::<%s, 512>(%s)" % (w, ty, g) for ty, g in gs])
    for name, ts in types:
        nm = ("t_" if name.startswith("t_") else "") + "v%d_" % w + name.replace("t_", "", 1)
        h("c06", nm, 68, ["any%d::<%s>(Any::ending())" % (w, ty) for ty in ts])
        h("c08", nm.replace("v%d_" % w, "v%d_fail_" % w), 68, ["any%d::<%s>(Any::failing())" % (w, ty) for ty in ts])
for prop, s in bodies.items():
    x = R / "parts" / (prop + ".rs")
    (R / (prop + ".rs")).write_text(s + ("\n" + x.read_text() if x.exists() else ""))
