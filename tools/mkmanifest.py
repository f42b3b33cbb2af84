#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks the harness registers."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
src = "".join(open(os.path.join(HERE, "harness", f)).read() for f in sorted(os.listdir(HERE + "/harness")) if f.endswith(".go"))
TECH = json.load(open(HERE + "/tools/techniques.json"))
regs = dict(re.findall(r'ID:\s*"(C\d+)",\s*Level:\s*"(\w+)"', src))
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i not in regs:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
        continue
    t = TECH[i]
    m["checks"].append({
        "property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": t["technique"], "level": regs[i], "level_note": t["note"]})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
