#!/usr/bin/env python3
"""Regenerates harness/lib.rs module list and replay/registry.rs from the harness sources."""
import pathlib, re
R = pathlib.Path(__file__).resolve().parent.parent
mods = sorted(p.stem for p in (R / "harness").glob("c[0-9][0-9]*.rs"))
helpers = sorted(p.stem for p in (R / "harness").glob("*.rs") if p.stem not in mods + ["lib", "sym", "replay_main"])
(R / "harness/lib.rs").write_text("#![cfg_attr(kani, feature(formatting_options, io_const_error))]\n#![allow(dead_code)]\n#[macro_use]\npub mod sym;\n" +
    "".join("#[macro_use]\npub mod %s;\n" % m for m in helpers) + "".join('#[cfg(feature = "%s")]\npub mod %s;\n' % (m[:3], m) for m in mods))
out = "".join('#[macro_use]\n#[path = "../harness/%s.rs"]\npub mod %s;\n' % (m, m) for m in helpers)
arms = ""
for m in mods:
    out += '#[path = "../harness/%s.rs"]\npub mod %s;\n' % (m, m)
    for h in re.findall(r"(?:harness(?:_text|_lossy)?!\s*\(\s*(?:#\[[^\]]*\]\s*)*|[a-z_]+!\s*\(\s*@h\s+)(c\d\d_\w+)", (R / "harness" / (m + ".rs")).read_text()):
        arms += '        "%s" => %s::%s(),\n' % (h, m, h)
out += "pub fn run(n: &str) {\n    match n {\n%s        _ => panic!(\"unknown harness\"),\n    }\n}\n" % arms
(R / "replay/registry.rs").write_text(out)
