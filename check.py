#!/usr/bin/env python3
"""check.py <property id> [--replay FILE] [--only SUB] [--scale X]: decide one property (see DESIGN.md)."""
import importlib, json, os, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, registry, report

def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    opt = {}
    while args:
        opt[args[0].lstrip("-")] = args[1]
        args = args[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = registry.CHECKS[pid]
    rep = report.Report(pid, tier, seed, cfg)
    try:
        for part in cfg["parts"]:
            if "part" in opt and opt["part"] != part.get("harness", part.get("module")):
                continue
            # a replay file belongs to one of the parts
            if "replay" in opt and len(cfg["parts"]) > 1 and ("harness" in part) == opt["replay"].endswith(".json"):
                continue
            if "harness" in part:
                rep.run_harness(part, opt)
            else:
                m = importlib.import_module("vlib." + part["module"])
                m.run(rep, part, opt)
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        rep.cleanup()
        sys.exit(2)
    sys.exit(rep.finish(opt))

main()
