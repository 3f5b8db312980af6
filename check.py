#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: decide one property on /repo's current working tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import db
import report
import registry


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    mod, fn, level = registry.CHECKS[pid]
    R = report.Report(pid, tier, level)
    report.arm()
    try:
        m = importlib.import_module("props." + mod)
        getattr(m, fn)(R)
        report.beyond_bounds(R, getattr(m, fn))
    except db.AnalysisBroken as e:
        viol = [o for o in R.obs if o[2] == "violated"]
        print("ANALYSIS-BROKEN:", e)
        if viol:
            sys.exit(report.finish(R))
        sys.exit(2)
    except report.OutOfTime:
        R.und("time", "the whole check", "", f"stopped after {report.TOTAL} s: what was not reached is undecided")
    except Exception:
        traceback.print_exc()
        if any(o[2] == "violated" for o in R.obs):
            sys.exit(report.finish(R))
        sys.exit(2)
    sys.exit(report.finish(R))


main()
