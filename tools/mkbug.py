#!/usr/bin/env python3
"""mkbug.py FILE...: each FILE is a python file defining ID, PROP, NEEDS, BREAKS, EDITS=[(path, old, new)], MAIN (rust demo body).
Builds seeded/<ID>/ after confirming: patch applies, compiles, stable tests pass, demo 0 without / nonzero with it."""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile
V = pathlib.Path("/verif")
DEMO = '''#!/bin/bash
# exit 0: the property held in this demonstration
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sia_sdk = { path = "$repo/sia" }
serde_json = "1"
serde = "1"
time = "0.3"
hex = "0.4"
blake2b_simd = "1"
[workspace]
EOF
cd "$work" && CARGO_NET_OFFLINE=true cargo run --offline --quiet --target-dir "$work/target"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


W = pathlib.Path("/tmp/bugwork")
if W.exists():
    shutil.rmtree("/tmp/bugwork")
sh("git clone -q /repo /tmp/bugwork")
for f in sys.argv[1:]:
    d = {}
    exec(pathlib.Path(f).read_text(), d)
    out = V / "seeded" / d["ID"]
    sh("git checkout -q -- .", W)
    out.mkdir(parents=True, exist_ok=True)
    (out / "main.rs").write_text(d["MAIN"])
    (out / "demo.sh").write_text(d.get("DEMO", DEMO))
    os.chmod(out / "demo.sh", 0o755)
    r0 = sh("bash %s/demo.sh" % out, W)
    if r0.returncode:
        print(d["ID"], "DEMO FAILS ON CLEAN TREE", r0.stdout[-700:]); continue
    ok = True
    for p, o, n in d["EDITS"]:
        t = (W / p).read_text()
        if t.count(o) != 1:
            print(d["ID"], "edit matches", t.count(o), repr(o[:60])); ok = False
        (W / p).write_text(t.replace(o, n, 1))
    if not ok:
        continue
    (out / "patch.diff").write_text(sh("git diff", W).stdout)
    t = sh("cargo test --offline --target-dir /tmp/bugtarget 2>&1 | grep -aE '^(test result|error|test .*FAILED)'", W)
    bad = "FAILED" in t.stdout or "error" in t.stdout
    r1 = sh("bash %s/demo.sh" % out, W)
    (out / "meta.json").write_text(json.dumps({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, indent=1) + "\n")
    print(d["ID"], "OK" if not bad and r1.returncode else "NOT OK", "tests:", t.stdout.replace("\n", " | ")[:400] if bad else "pass", "demo:", r1.returncode, r1.stdout[-60:].strip())
    if bad or not r1.returncode:
        shutil.rmtree(str(out))
