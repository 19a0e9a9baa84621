"""Writes MANIFEST.json from the property list and the check modules present."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(HERE, "checks", pid.lower() + ".py")
    if os.path.exists(f):
        mod = importlib.import_module("checks." + pid.lower())
        checks.append(dict(property=pid, quick_cmd=f"./check.sh {pid} quick", thorough_cmd=f"./check.sh {pid} thorough",
                           technique=getattr(mod, "TECHNIQUE", "runtime monitoring: real runs under random workloads, checked by an independent reference oracle"),
                           level=mod.LEVEL, level_note=getattr(mod, "NOTE", None) or mod.RULE))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./check.sh --selftest", checks=checks, not_applicable=na,
               notes="No hooks in /repo: monitors observe public results, files and patched call sites from outside; "
                     "see DESIGN.md."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
