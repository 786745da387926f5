"""Reporting: violations, known findings, evidence."""
import json
import os
import time

from . import facts
from .facts import AnalysisBroken, VERIF, REPO


class Finding:
    def __init__(self, file, line, fn, rule, msg, key, trace=None):
        self.file, self.line, self.fn, self.rule = file, line, fn, rule
        self.msg, self.key, self.trace = msg, key, trace or []

    def text(self):
        s = "%s:%s: in %s: [%s] %s" % (self.file, self.line, self.fn, self.rule, self.msg)
        return s


class Report:
    def __init__(self, pid, prog):
        self.pid = pid
        self.prog = prog
        self.findings = {}
        self.instances = {}     # rule -> list of instance texts
        self.counts = {}
        self.notes = []
        self.t0 = time.time()

    def instance(self, rule, text):
        """An obligation that was decided (site, path set, table row)."""
        self.instances.setdefault(rule, []).append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def violation(self, file, line, fn, rule, msg, key=None, trace=None):
        f = Finding(file, line, fn, rule, msg, key or "%s|%s|%s" % (rule, fn, msg), trace)
        if f.key not in self.findings or len(f.trace) < len(self.findings[f.key].trace):
            self.findings[f.key] = f

    def need(self, rule, n, what=""):
        """Fail as broken when fewer than n instances of rule were decided."""
        have = len(set(self.instances.get(rule, [])))
        if have < n:
            raise AnalysisBroken("rule %s decided %d instances, expected at least %d %s"
                                 % (rule, have, n, what))

    def stats(self, eng):
        self.count("statements interpreted", eng.stats["stmts"])
        self.count("call sites evaluated", eng.stats["calls"])
        self.count("calls inlined", eng.stats["inlined"])
        self.count("state joins", eng.stats["joins"])
        self.fnset = getattr(self, "fnset", set()) | eng.stats["functions"]


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                # known: property=<id> key=<key> :: <what fails>
                head, _, what = line[7:].partition(" :: ")
                pid = head.split()[0].split("=", 1)[1]
                key = head.split("key=", 1)[1]
                out.append((pid, key, what))
    return out


def finish(rep, spec, tier, seed):
    known = {k: w for p, k, w in load_known() if p == rep.pid}
    viol, kn = [], []
    for f in rep.findings.values():
        if f.key in known:
            kn.append((f, known[f.key]))
        else:
            viol.append(f)
    for f, what in kn:
        print("KNOWN-FINDING: property=%s %s (%s)" % (rep.pid, what, f.text()))
    total = sum(len(set(v)) for v in rep.instances.values())
    cov = {
        "explanation": spec.EXPLAIN,
        "translation_units_parsed": len(rep.prog.units),
        "functions_loaded": len(rep.prog.functions),
        "functions_interpreted": len(getattr(rep, "fnset", ())),
        "rule_instances": {k: len(set(v)) for k, v in sorted(rep.instances.items())},
        "rule_instances_total": total,
        "measured": dict(sorted(rep.counts.items())),
        "samples": [x for k in sorted(rep.instances) for x in sorted(set(rep.instances[k]))[:6]][:60],
        "violations": [f.text() for f in viol],
        "known_findings": [f.text() for f, _ in kn],
    }
    ev = {
        "property": rep.pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": cov, "assumptions": getattr(spec, "ASSUME", ASSUME),
        "wall_s": round(time.time() - rep.t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if not viol:
        print("OK property=%s instances=%d functions=%d" % (rep.pid, total, len(getattr(rep, "fnset", ()))))
        return 0
    rd = os.path.join(VERIF, "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, rep.pid + ".txt")
    with open(path, "w") as fh:
        for f in viol:
            fh.write(f.text() + "\n")
            for t in f.trace:
                fh.write("    %s:%s: %s\n" % t)
            fh.write("    key=%s\n" % f.key)
            fh.write("\n")
    for f in viol:
        print(f.text())
        for t in f.trace[-25:]:
            print("    %s:%s: %s" % t)
        print("    key=%s" % f.key)
    print("VIOLATION property=%s replay=%s" % (rep.pid, path))
    return 1


ASSUME = [
    "Clang's type resolution of each translation unit matches the g++ build.",
    "External library functions behave as their documentation says and write only through their non-const pointer arguments.",
    "Pointer arguments of different parameters do not alias unless the code makes them alias.",
]
