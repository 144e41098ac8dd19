"""python3 -m mtcheck ID [--tier quick|thorough]  (or: all)"""
import argparse
import importlib
import os
import pkgutil
import sys
import time
import traceback

from .project import AnalysisBroken, Project
from . import checks, report


def registry():
    out = {}
    for m in pkgutil.iter_modules(checks.__path__):
        mod = importlib.import_module(f"mtcheck.checks.{m.name}")
        for pid, fn in getattr(mod, "CHECKS", {}).items():
            out[pid] = (mod, fn)
    return out


def run_one(pid, fn, tier, project=None):
    t0 = time.time()
    try:
        p = project or Project(keep=getattr(fn, "keep", None))
        res = fn(p, tier)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid} internal error", file=sys.stderr)
        return 2
    return report.finish(res, tier, t0)


def main():
    sys.setrecursionlimit(20000)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    reg = registry()
    if a.prop == "all":
        rc = 0
        for pid in sorted(reg):
            rc = max(rc, run_one(pid, reg[pid][1], a.tier))
        return rc
    if a.prop not in reg:
        print(f"unknown property {a.prop}; have {sorted(reg)}", file=sys.stderr)
        return 2
    return run_one(a.prop, reg[a.prop][1], a.tier)


if __name__ == "__main__":
    sys.exit(main())
