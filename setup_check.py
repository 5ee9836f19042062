#!/usr/bin/env python3
"""setup_cmd: the tools the checks need are there. (Every check generates its code from /repo itself.)"""
import pathlib, subprocess, sys
K = pathlib.Path("/root/.kani/kani-0.68.0/bin")
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument") if not (K / t).exists()]
if missing or subprocess.run(["cargo", "kani", "--version"], stdout=subprocess.DEVNULL).returncode:
    print("missing tools", missing)
    sys.exit(1)
pathlib.Path(__file__).resolve().parent.joinpath("evidence").mkdir(exist_ok=True)
