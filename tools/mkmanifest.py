"""writes MANIFEST.json for every property that has a check module"""
import ast
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    pid = p["id"]
    mods = glob.glob(os.path.join(ROOT, "checks", pid.lower() + "_*.py"))
    if not mods:
        na.append(dict(property=pid, reason=NA.get(pid, "its check is not built yet")))
        continue
    src = open(mods[0]).read()
    ns = {}
    tech = "runtime monitoring: reference-model oracle over randomised executions"
    note = "holds on the executions observed; see evidence for their number and variety"
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("TECHNIQUE", "NOTE"):
            val = ast.literal_eval(node.value)
            if node.targets[0].id == "TECHNIQUE":
                tech = val
            else:
                note = val
    checks.append(dict(property=pid,
                       quick_cmd="bash run.sh %s quick" % pid,
                       thorough_cmd="bash run.sh %s thorough" % pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique=tech, level="exploration", level_note=note))
man = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
           notes="No hooks are compiled into /repo; monitors attach from outside "
                 "(public API, compiled copies with sanitizers, wrapped callables).")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
