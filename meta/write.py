"""python3 -m meta.write : writes properties.jsonl and MANIFEST.json."""
import importlib
import json
import os
import pkgutil

import meta
from . import base

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for m in sorted(x.name for x in pkgutil.iter_modules(meta.__path__)):
    if m[:2] in ("a_", "b_", "c_", "d_", "e_", "f_", "z_"):
        importlib.import_module("meta." + m)
rows = sorted(base.PROPS, key=lambda p: p["row"]["id"])
assert len({p["row"]["id"] for p in rows}) == len(rows)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in rows:
        f.write(json.dumps(p["row"]) + "\n")
checks = []
for p in rows:
    i = p["row"]["id"]
    if p["technique"] is None:
        continue
    checks.append({
        "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
        "technique": "static analysis: " + p["technique"], "level": "other",
        "level_note": p["note"],
    })
man = {
    "version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
    "not_applicable": sorted(base.NA, key=lambda n: n["property"]),
    "notes": "No hooks in /repo: every check reads the source through Clang's front end. The known-findings file is "
             "known_findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(rows), "properties,", len(checks), "checks")
