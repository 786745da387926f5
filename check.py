#!/usr/bin/env python3
"""check.py ID... : decide the properties from /repo's current source."""
import importlib
import os
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"          # same exploration order on every run
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import facts, report  # noqa: E402


def module_for(pid):
    for f in sorted(os.listdir(os.path.join(facts.VERIF, "rules"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("rules." + f[:-3])
    raise facts.AnalysisBroken("no rule module for " + pid)


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ids = argv or sorted(f.split("_")[0].upper() for f in os.listdir(os.path.join(facts.VERIF, "rules"))
                         if f[0].isalpha() and f[1:3].isdigit() and f.endswith(".py"))
    rc = 0
    try:
        pk = os.environ.get("VERIF_FACTS_PICKLE")
        if pk:
            import pickle
            prog = pickle.load(open(pk, "rb"))
        else:
            prog = facts.load()
    except facts.AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2
    for pid in ids:
        try:
            spec = module_for(pid)
            rep = report.Report(pid, prog)
            broken = None
            try:
                spec.check(prog, rep)
            except facts.AnalysisBroken as e:
                # a definite violation found before the analysis gave up counts
                broken = e
            if broken is not None and not rep.findings:
                raise broken
            r = report.finish(rep, spec, tier, seed)
            if broken is not None and r == 0:
                raise broken
            rc = max(rc, r) if rc != 2 else 2
        except facts.AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
            rc = 2
        except Exception:
            traceback.print_exc(limit=-4)
            print("ANALYSIS-BROKEN property=%s: internal error" % pid)
            rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
