"""Writes DESIGN.md from the property list, the check modules, the defect list, the planted bugs and tools/design_notes.md."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
known = json.load(open(os.path.join(HERE, "known_findings.json")))
notes = open(os.path.join(HERE, "tools", "design_notes.md")).read()
sections = dict(s.split("\n", 1) for s in notes.split("\n@@ ")[1:])
costs = {}
cf = os.path.join(HERE, "tools", "costs.json")
if os.path.exists(cf):
    costs = json.load(open(cf))
out = [sections["intro"].strip(), "\n## Properties\n"]
for p in props:
    pid = p["id"]
    mod = importlib.import_module("checks." + pid.lower())
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Anchors:* {', '.join('`' + f + '`' for f in p['anchors']['files'])}. "
               f"*Observed at:* {'; '.join(p['anchors'].get('observe_at', []))}.\n")
    out.append(f"*Oracle:* {mod.__doc__.strip()} *Workload and comparisons:* {mod.RULE}.\n")
    extra = []
    if getattr(mod, "ASSUMPTIONS", None):
        extra.append("*Bounds:* " + " ".join(mod.ASSUMPTIONS))
    extra.append(f"*The run only counts if the monitors saw at least:* {', '.join(f'{v} {k}' for k, v in mod.MIN_EVENTS.items())}.")
    c = costs.get(pid)
    if c:
        extra.append(f"*Cost (8 cores):* quick {c.get('quick', '?')} s" + (f", thorough {c['thorough']} s." if "thorough" in c else "."))
    extra.append(f"*Level:* {mod.LEVEL.replace('_', ' ')}. *Beyond the tests:* {p['why_tests_cant']}")
    out.append(" ".join(extra) + "\n")
out.append(sections["bounds"].strip() + "\n")
out.append("\n## Defects found in dattri and repaired\n")
out.append("Each is one `fix:` commit in /repo; `known_findings.json` lists the same entries as `fixed:` (they suppress nothing).\n")
fixed = known.get("fixed", known) if isinstance(known, dict) else known
for f in fixed:
    out.append("- " + (f if isinstance(f, str) else f.get("entry") or f.get("text") or json.dumps(f)))
out.append("\n## Defects found in dattri and not repaired (known findings)\n")
out.append(sections["findings"].strip() + "\n")
for k in known["known"]:
    out.append(f"- {k['property']}, `{k['where']}`: {k['what']}. Repair: `{k['repair']}`.")
out.append("\n" + sections["observations"].strip() + "\n")
out.append("\n## Planted bugs\n")
out.append(sections["planted"].strip() + "\n")
out.append("| id | property | needs | found by |\n|---|---|---|---|")
res = dict(l.split(" | ", 1) for l in sections["caught"].strip().split("\n") if " | " in l)
for sid in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    mj = json.load(open(os.path.join(HERE, "seeded", sid, "meta.json")))
    out.append(f"| {sid} | {mj['property']} | {mj['needs']} | {res.get(sid, mj['property'])} |")
out.append("\n" + sections["surveys"].strip() + "\n")
out.append("\n" + sections["alarms"].strip() + "\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "blocks")
