#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of the real code (Kani front end, CBMC, SAT/SMT).

  check.py C22 [--tier quick|thorough] [--only SUBSTRING] [--keep]

Exit 0: every harness of the property was decided "holds" within its stated bounds.
Exit 1: a counterexample was found and reproduced natively: VIOLATION property=<id> replay=<path>.
Exit 2: no verdict (build failure, time or memory limit, unwinding bound, irreproducible counterexample).
"""
import argparse, concurrent.futures as cf, json, os, pathlib, re, resource, shutil, signal, subprocess, sys, threading, time

ROOT = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT))
import specs  # noqa: E402

KANI = pathlib.Path("/root/.kani/kani-0.68.0")
BIN = KANI / "bin"
CBMC_BASE = ["--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check", "--nan-check",
             "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16"]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
T0 = time.time()
SAFE = not any(re.search(r"\bunsafe\b", f.read_text()) for d in ("sia", "sia_derive") for f in pathlib.Path("/repo", d, "src").rglob("*.rs"))
STOP = threading.Event()    # a violation is confirmed: nothing else needs deciding
ALIVE = set()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout=None, cwd=None, mem_gb=None, env=None, procs=None):
    def lim():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if STOP.is_set():
        return None, ""
    p = subprocess.Popen([str(c) for c in cmd], cwd=cwd, env=env or ENV, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=lim)
    if procs is not None:
        procs.append(p)
    ALIVE.add(p)
    if STOP.is_set():
        kill(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        kill(p)
        out, _ = p.communicate()
        return None, out
    finally:
        ALIVE.discard(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


class Inconclusive(Exception):
    pass


# ---- building -----------------------------------------------------------------------------------

def declared(prop):
    src = (ROOT / "harness" / (prop.lower() + ".rs")).read_text()
    return re.findall(r"^(?:harness(?:_text|_lossy)?!\((?:#\[.*?\]\s*)*|[a-z_]+!\(@h )(c\d\d_\w+)", src, re.M)


def codegen(prop, spec, names):
    """Compile the given harnesses (and everything they reach in /repo) to goto programs, in parallel shards.
    A harness can ask for a build of its own kind (`build` in its options, BUILDS in specs.py)."""
    per = spec.get("per", {})
    groups = {}
    for n in sorted(names, key=lambda n: -per.get(n, {}).get("cost", 1)):
        groups.setdefault(per.get(n, {}).get("build", spec.get("build", "std")), []).append(n)
    shards = []
    for b, ns in groups.items():
        k = max(1, min(4, (len(ns) + 7) // 10))
        shards += [(b, i, ns[i::k]) for i in range(k)]

    def shard(x):
        b, i, mine = x
        kind = specs.BUILDS[b]
        env = dict(ENV)
        env.update(kind.get("env", {}))
        tdir = ROOT / "target" / ("%s-%s-%d" % (spec.get("crate", "kani"), b, i))
        cmd = ["cargo", "kani", "--only-codegen", "--no-assertion-reach-checks"] + (["-Z", "stubbing"] if spec.get("crate") else []) + [ "--target-dir", tdir, "--exact"]
        for n in mine:
            cmd += ["--harness", "%s::%s" % (prop.lower(), n)]
        cmd += ["--features", ",".join([prop.lower()] + kind.get("features", []))]
        rc, out = run(cmd, timeout=600, cwd=ROOT / spec.get("crate", "kani"), env=env)
        if rc != 0:
            e = out.find("\nerror")
            print(out[e:e + 6000] if e >= 0 else out[-6000:])
            raise Inconclusive("code generation failed")
        best = (0, {})
        for m in tdir.rglob("siakani-*.kani-metadata.json"):
            hs = {h["pretty_name"].split("::")[-1]: h for h in json.loads(m.read_text())["proof_harnesses"]}
            if sorted(hs) == sorted(mine) and m.stat().st_mtime > best[0]:
                best = (m.stat().st_mtime, hs)
        hs = best[1]
        if not hs:
            raise Inconclusive("harness metadata missing")
        return hs

    out = {}
    with cf.ThreadPoolExecutor(6) as ex:
        for hs in ex.map(shard, shards):
            out.update(hs)
    return out


def link(h, work):
    name = h["pretty_name"].split("::")[-1]
    out = str(work / (name + ".out"))
    steps = [
        ["goto-cc", h["goto_file"], str(KANI / "library/kani/kani_lib.c"), "-o", out],
        ["goto-cc", out, "--function", h["mangled_name"], "-o", out],
        ["goto-instrument", "--add-library", "--no-malloc-may-fail", out, out],
        ["goto-instrument", "--generate-function-body-options", "assert-false-assume-false",
         "--generate-function-body", ".*", "--drop-unused-functions", out, out],
        ["goto-instrument", "--ensure-one-backedge-per-target", out, out],
    ]
    for s in steps:
        rc, o = run([BIN / s[0]] + s[1:], timeout=300)
        if rc != 0:
            raise Inconclusive("%s: %s failed: %s" % (name, s[0], o[-800:]))
    return out


# ---- solving ------------------------------------------------------------------------------------

RES = re.compile(r"^\[(.*?)\] (?:file .*? )?(?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def loop_bounds(goto, opts, factor):
    """--unwindset for the loops (by regular expression over their names) with a bound of their own"""
    if not opts.get("loops"):
        return []
    rc, out = run([BIN / "goto-instrument", "--show-loops", goto], timeout=120)
    names = re.findall(r"^Loop (\S+?):$", out, re.M)
    sets = ["%s:%d" % (n, b * factor) for n in names for b in [b for rx, b in opts["loops"] if re.search(rx, n)][:1]]
    return ["--unwindset", ",".join(sets)] if sets else []


def solve(name, goto, unwind, opts, timeout, mem, factor=1):
    """decide one harness, by several solvers at once if it asks for that: the first answer counts"""
    if opts.get("split"):
        return solve_split(name, goto, unwind, opts, timeout, mem, factor)
    solvers = opts.get("solver", "cadical")
    solvers = solvers if isinstance(solvers, list) else [solvers]
    if len(solvers) == 1:
        return solve1(name, goto, unwind, opts, timeout, mem, factor, solvers[0], [])
    procs, last = [], None
    with cf.ThreadPoolExecutor(len(solvers)) as ex:
        fs = [ex.submit(solve1, name, goto, unwind, opts, timeout, mem, factor, s, procs) for s in solvers]
        for f in cf.as_completed(fs):
            r = f.result()
            if last is None or r["status"] not in ("timeout", "error"):
                last = r
            if r["status"] not in ("timeout", "error"):
                for p in procs:
                    kill(p)
                break
    return last


def solve_split(name, goto, unwind, opts, timeout, mem, factor):
    """decide the assertions of a harness one by one (each by the solver that manages it first), the rest together"""
    rc, out = run([BIN / "cbmc"] + CBMC_BASE + ["--show-properties", "--json-ui", goto], timeout=120)
    ps = [p["name"] for m in json.loads(out) if isinstance(m, dict) for p in m.get("properties", [])]
    # (whether an unwinding bound suffices is asked with the rest)
    alone = [p for p in ps if re.search(r"^(c\d\d::|sia::types::(v1|v2|currency)|<?sia::(types::)?(Currency|consensus::ChainState)|std::option::(expect|unwrap)_failed).*\.assertion\.", p)]
    groups = [[p] for p in alone] + [[p for p in ps if p not in alone]]
    rs = []
    o = dict(opts, split=False)
    done = []

    def part(g):
        if any(x["status"] == "failed" for x in done):
            return {"status": "skipped", "wall": 0}
        x = solve(name, goto, unwind, dict(o, cbmc=o.get("cbmc", []) + [x for p in g for x in ("--property", p)],
                                           alone=len(g) == 1), timeout, mem, factor)
        done.append(x)
        return x

    with cf.ThreadPoolExecutor(opts.get("width", 3)) as ex:
        rs = list(ex.map(part, groups))
    r = dict(rs[-1])
    for st in ("failed", "timeout", "error", "unsupported", "unwind", "vacuous"):
        if any(x["status"] == st for x in rs):
            r["status"] = st
            break
    for k in ("checks", "vccs", "vccs_remaining", "solver_s", "queries"):
        r[k] = round(sum(x.get(k, 0) for x in rs), 3)
    for k in ("wall", "clauses", "vars", "steps"):
        r[k] = max(x.get(k, 0) for x in rs)
    for k in ("failed", "unwound", "unsupported"):
        r[k] = [f for x in rs for f in x.get(k, [])]
    r["detail"] = " ".join(["%s: %s" % (g[0], x["status"]) for g, x in zip(groups, rs) if x["status"] != "holds"] + [x.get("detail", "") for x in rs])
    r["solver"] = "+".join(sorted({str(x.get("solver")) for x in rs}))
    return r


def solve1(name, goto, unwind, opts, timeout, mem, factor, solver, procs):
    cmd = [BIN / "cbmc"] + CBMC_BASE + ["--max-field-sensitivity-array-size", str(opts.get("fs", 2048))] + (["--unwind", str(unwind)] if unwind else []) + loop_bounds(goto, opts, factor)
    if solver in ("cadical", "minisat2"):
        cmd += ["--sat-solver", solver]
    elif solver == "kissat":
        cmd += ["--external-sat-solver", "kissat"]
    elif solver == "z3":
        cmd += ["--z3"]
    elif solver == "z3-new":
        cmd += ["--z3", "--external-smt2-solver", "z3-new"]
    elif solver == "cvc5":
        cmd += ["--cvc5"]
    cmd += ["--slice-formula"] + opts.get("cbmc", []) + [goto, "--verbosity", "8"]
    t = time.time()
    rc, out = run(cmd, timeout=timeout, mem_gb=mem, procs=procs)
    r = {"name": name, "unwind": unwind, "wall": round(time.time() - t, 2), "solver": solver}
    if os.environ.get("CBMC_LOG"):
        pathlib.Path(os.environ["CBMC_LOG"], name + ".log").write_text(out)
    if rc is None:
        r["status"] = "timeout"
        return r
    ok = fail = 0
    failed, covers = [], []
    for line in out.splitlines():
        m = RES.match(line)
        if not m:
            continue
        pid, desc, st = m.groups()
        if ".cover." in pid:
            covers.append((desc, st == "FAILURE"))
        elif st == "SUCCESS":
            ok += 1
        elif st == "FAILURE":
            failed.append((pid, desc))
        else:
            fail += 1
    if rc not in (0, 10) or fail or (ok == 0 and not failed):
        r["status"] = "error"
        r["detail"] = "rc=%s %s" % (rc, out[-1500:])
        return r
    g = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", out)
    r["checks"] = ok + len(failed)
    r["covers"] = covers
    r["vccs"], r["vccs_remaining"] = (int(g.group(1)), int(g.group(2))) if g else (0, 0)
    r["solver_s"] = round(sum(float(x) for x in re.findall(r"Runtime [Ss]olver: ([\d.e+-]+)s", out)) or
                          sum(float(x) for x in re.findall(r"Runtime decision procedure: ([\d.e+-]+)s", out)), 3)
    r["queries"] = len(re.findall(r"Runtime decision procedure", out))
    v = re.findall(r"(\d+) variables, (\d+) clauses", out)
    r["vars"], r["clauses"] = (max(int(a) for a, _ in v), max(int(b) for _, b in v)) if v else (0, 0)
    r["steps"] = int((re.search(r"size of program expression: (\d+) steps", out) or [0, 0])[1])
    unw = [f for f in failed if ".unwind." in f[0] or "unwinding assertion" in f[1]
           or ".recursion" in f[0]]
    uns = [f for f in failed if f not in unw and ("unsupported" in f[0] or "no-body" in f[0] or "no body" in f[1]
           or "is not currently supported by Kani" in f[1] or "hash model:" in f[1] or "model limit:" in f[1])]
    # (with no unsafe code in the crate, its deallocations are right by the language; the symbolic executor sometimes
    # forgets the capacity of an empty list moved into an enum and then "frees" it)
    real = [f for f in failed if f not in unw and f not in uns and not (SAFE and f[0].startswith("__rust_dealloc."))]
    r["failed"], r["unwound"], r["unsupported"] = real, unw, uns
    never = [d for d, hit in covers if d.strip('"').startswith("never") and hit]
    if opts.get("panics"):
        # the code is expected to abort here: what counts is that the end is not reached
        r["aborts"], real = len(real), []
    if real or never:
        r["status"] = "failed"
        r["never"] = never
    elif uns:
        r["status"] = "unsupported"
    elif unw:
        r["status"] = "unwind"
    elif not opts.get("alone") and (not covers or not all(hit or d.strip('"').startswith("never") for d, hit in covers)):
        r["status"] = "vacuous"
    else:
        r["status"] = "holds"
    return r


def flatten(v):
    """bytes (memory order) of a CBMC JSON trace value"""
    if "elements" in v:
        return b"".join(flatten(e["value"]) for e in sorted(v["elements"], key=lambda e: e["index"]))
    if "members" in v:
        return b"".join(flatten(m["value"]) for m in v["members"])
    b = v.get("binary")
    if b is None:
        raise Inconclusive("unreadable trace value %r" % v)
    return int(b, 2).to_bytes(max(1, len(b) // 8), "little")


def witness(name, goto, unwind, opts, pid, timeout, mem, factor=1):
    cmd = [BIN / "cbmc"] + CBMC_BASE + ["--max-field-sensitivity-array-size", str(opts.get("fs", 2048))] + (["--unwind", str(unwind)] if unwind else []) + loop_bounds(goto, opts, factor)
    cmd += ["--sat-solver", "cadical"]
    cmd += opts.get("cbmc", []) + ["--trace", "--json-ui", "--property", pid, goto]
    rc, out = run(cmd, timeout=timeout, mem_gb=mem)
    if rc is None:
        raise Inconclusive("%s: no trace within the time limit" % name)
    try:
        msgs = json.loads(out)
    except Exception:
        raise Inconclusive("%s: unreadable trace: %s" % (name, out[-300:]))
    tr = None
    for m in msgs:
        for r in m.get("result", []) if isinstance(m, dict) else []:
            if r.get("property") == pid and r.get("trace"):
                tr = r["trace"]
    if tr is None:
        raise Inconclusive("%s: no trace for %s" % (name, pid))
    vals = []
    for s in tr:
        if s.get("stepType") != "assignment":
            continue
        fn = s.get("sourceLocation", {}).get("function", "")
        lhs = s.get("lhs", "")
        if lhs.startswith("goto_symex$$return_value") and "[" not in lhs and "any_raw_" in fn:
            vals.append(flatten(s["value"]).hex())
    return vals


# ---- replay -------------------------------------------------------------------------------------

def build_replay(prof):
    tdir = ROOT / "target" / "replay"
    cmd = ["cargo", "build", "--offline", "--target-dir", tdir] + (["--release"] if prof == "release" else [])
    rc, out = run(cmd, timeout=600, cwd=ROOT / "replay")
    if rc != 0:
        print(out[-4000:])
        raise Inconclusive("replay build failed")
    return tdir / ("debug" if prof == "dev" else "release") / "replay"


def replay(bins, name, vals, never):
    """run the real code on the inputs of a counterexample (the optimised build only if the other does not fail)"""
    hexs = "".join(vals)
    for prof in ("dev", "release"):
        if prof not in bins:
            bins[prof] = build_replay(prof)
        rc, out = run([bins[prof], name, hexs or "-"], timeout=120, mem_gb=8)
        tail = out.strip()[-600:]
        if rc == 3:
            continue
        if never and rc == 0 and any("REPLAY-REACHED " + n in out for n in never):
            return True, "%s: reached %s" % (prof, never)
        if not never and (rc is None or rc != 0):
            return True, "%s: exit %s: %s" % (prof, rc, tail)
    return False, tail


def known_findings(prop):
    out = []
    f = ROOT / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) harness=(\S+) check=(.+?) :: (.*)", line)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--cbmc", default="", help="extra cbmc options (experiments)")
    ap.add_argument("--solver", default="")
    ap.add_argument("--timeout", type=int, default=0)
    ap.add_argument("--fs", type=int, default=0)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    spec = specs.SPECS[prop]
    budget = 820 if tier == "quick" else 6 * 3600
    work = ROOT / "target" / "work" / (prop + str(os.getpid()))
    work.mkdir(parents=True, exist_ok=True)
    status, results, note = 2, [], ""
    try:
        names = [n for n in sorted(declared(prop)) if a.only in n and (tier == "thorough" or "_t_" not in n)]
        if not names:
            raise Inconclusive("no harnesses")
        hs = codegen(prop, spec, names)
        log("%s: %d harnesses generated from /repo" % (prop, len(names)))

        def one(n):
            o = dict(spec.get("opts", {}))
            o.update(spec.get("per", {}).get(n, {}))
            o["cbmc"] = o.get("cbmc", []) + a.cbmc.split()
            if a.fs:
                o["fs"] = a.fs
            if a.timeout:
                o["timeout"] = a.timeout
            if a.solver:
                o["solver"] = a.solver
            g = link(hs[n], work)
            u = o.get("unwind") or hs[n]["attributes"]["unwind_value"]
            lim = o.get("timeout", 400 if tier == "quick" else 7200)
            while True:
                lim = min(lim, budget - (time.time() - T0) - 30)
                if lim < 5:
                    return {"name": n, "status": "timeout", "unwind": u, "wall": 0}, g, o
                f = u // (o.get("unwind") or hs[n]["attributes"]["unwind_value"] or 1) or 1
                r = solve(n, g, u, o, lim, o.get("mem", 9), f)
                r["factor"] = f
                log("  %-34s %-10s unwind=%s %.1fs checks=%s vccs=%s solver=%.1fs clauses=%s%s" % (
                    n, r["status"], u, r["wall"], r.get("checks"), r.get("vccs"), r.get("solver_s", 0),
                    r.get("clauses"), " " + str(r.get("failed") or r.get("unsupported") or r.get("unwound") or
                                                r.get("detail", "") or ([c for c in r.get("covers", []) if not c[1]]))[:700]
                    if r["status"] != "holds" else ""))
                if r["status"] == "unwind" and u < 8 * (hs[n]["attributes"]["unwind_value"] or 1):
                    u *= 2
                    continue
                return r, g, o

        known = known_findings(prop)
        bins, found, irrepro, lock = {}, [], [], threading.Lock()

        def confirm(r, g, o):
            """a failed harness counts once its counterexample fails natively too"""
            todo = [(p, d, []) for p, d in r["failed"]] + [
                (d, d, [d.strip('"')]) for d in r.get("never", [])]
            seen = set()
            for pid, desc, never in todo:
                if desc in seen or len(seen) >= 3:
                    continue
                seen.add(desc)
                try:
                    if never:
                        pid = cover_pid(g, desc)
                    left = budget + 60 - (time.time() - T0)
                    if left < 20:
                        raise Inconclusive("out of time before a trace was produced")
                    vals = witness(r["name"], g, r["unwind"], o, pid, left, 12, r.get("factor", 1))
                    hit, how = replay(bins, r["name"], vals, never)
                except Inconclusive as e:
                    irrepro.append("%s %s: %s" % (r["name"], desc, e))
                    continue
                kf = [k for k in known if k[0] == r["name"] and k[1] in desc]
                if hit and kf:
                    print("KNOWN-FINDING: property=%s %s" % (prop, kf[0][2]))
                    return
                if hit:
                    rd = ROOT / "replays"
                    rd.mkdir(exist_ok=True)
                    path = rd / ("%s-%s.json" % (prop, r["name"]))
                    path.write_text(json.dumps({"property": prop, "harness": r["name"], "check": desc,
                        "input_hex": "".join(vals), "observed": how,
                        "rerun": "cd /verif/replay && cargo run --offline -- %s %s" % (r["name"], "".join(vals) or "-")}, indent=1) + "\n")
                    log("counterexample in %s: %s\n    inputs %s\n    %s" % (r["name"], desc, vals, how))
                    found.append(path)
                    return
                irrepro.append("%s %s: does not reproduce (%s)" % (r["name"], desc, vals))

        def task(n):
            skipped = {"name": n, "status": "skipped", "wall": 0}
            if STOP.is_set():
                return skipped
            try:
                r, g, o = one(n)
                if r["status"] == "failed":
                    with lock:
                        if not found:
                            confirm(r, g, o)
                            if found:
                                STOP.set()
                                for p in list(ALIVE):
                                    kill(p)
                return r
            except Inconclusive:
                if STOP.is_set():
                    return skipped
                raise

        order = sorted(names, key=lambda n: -spec.get("per", {}).get(n, {}).get("cost", 1))
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            results = list(ex.map(task, order))
        inc = [x for x in results if x["status"] not in ("failed", "holds")]
        violation = found[0] if found else None
        if violation:
            status = 1
            print("VIOLATION property=%s replay=%s" % (prop, violation))
        elif inc or irrepro:
            note = "no verdict: " + "; ".join(["%s %s" % (x["name"], x["status"]) for x in inc] + irrepro)
            print(note)
        else:
            status = 0
    except Inconclusive as e:
        note = str(e)
        print("no verdict:", e)
    finally:
        os.environ.get("KEEP") or shutil.rmtree(work, ignore_errors=True)
    write_evidence(prop, tier, spec, results, status, note)
    log("%s: exit %d" % (prop, status))
    sys.exit(status)


def cover_pid(goto, desc):
    rc, out = run([BIN / "cbmc", "--show-properties", "--json-ui", goto], timeout=120)
    for m in json.loads(out):
        for p in m.get("properties", []) if isinstance(m, dict) else []:
            if ".cover." in p["name"] and desc.strip('"') in p["description"]:
                return p["name"]
    raise Inconclusive("cover property not found: " + desc)


def write_evidence(prop, tier, spec, results, status, note):
    rs = results
    held = [r for r in rs if r["status"] == "holds"]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": spec["explain"],
            "exhaustive": status == 0,
            "obligations": sum(r.get("checks", 0) for r in rs),
            "discharged": sum(r.get("checks", 0) for r in held),
            "harnesses": len(rs), "harnesses_holding": len(held),
            "vccs_generated": sum(r.get("vccs", 0) for r in rs),
            "vccs_to_solver": sum(r.get("vccs_remaining", 0) for r in rs),
            "solver_queries": sum(r.get("queries", 0) for r in rs),
            "solver_s": round(sum(r.get("solver_s", 0) for r in rs), 2),
            "functions_encoded": spec["functions"], "bounds": spec["bounds"], "outside": spec["outside"],
            "samples": [{k: r.get(k) for k in ("name", "status", "unwind", "checks", "vccs", "vccs_remaining", "steps",
                                                "vars", "clauses", "solver", "solver_s", "wall", "covers")} for r in rs],
        },
        "assumptions": spec["assumptions"] + specs.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1), "violations": 1 if status == 1 else 0,
    }
    if note:
        ev["coverage"]["note"] = note
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1) + "\n")


main()
