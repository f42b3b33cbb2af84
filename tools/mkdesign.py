#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, with what is specified per check taken from
the checks themselves (harness/*.go, MANIFEST.json, properties.jsonl, seeded/)."""
import glob
import json
import os
import re

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(TOP)
props = [json.loads(l) for l in open("properties.jsonl")]
man = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}
src = "".join(open(f).read() for f in sorted(glob.glob("harness/*.go")))
rules = dict(re.findall(r'ID: "(C\d+)".*?Rule:\s+"([^"]*)"', src, re.S))
sizes = {i: (q, t) for i, q, t in re.findall(r'ID: "(C\d+)".*?Quick: (\d+), *Thorough: (\d+)', src, re.S)}

from design_text import HEAD, ORACLE, COST, TAIL, CAUGHT

out = [HEAD]
out.append("| property | deciding monitor | cases quick / thorough | quick run, 8 cores |\n|---|---|---|---|")
for p in props:
    i = p["id"]
    out.append("| %s %s | %s | %s / %s | %s |" % (i, p["title"], man[i]["technique"], sizes[i][0], sizes[i][1], COST.get(i, "")))
out.append("\n## Property by property\n")
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("%s\n" % p["statement"])
    out.append("*Workload and monitors.* %s\n" % (rules[i][0].upper() + rules[i][1:]))
    out.append("*Oracle, and why it reaches what the tests cannot.* %s\n" % ORACLE[i])
    out.append("*Bounds.* %s\n" % man[i]["level_note"])
out.append("## Planted bugs and what catches them\n")
out.append("Each is in `seeded/<id>/`. \"Caught by\" lists the checks that were run against it and raised it\n(the check of its own property first); `tools/seeds.sh` repeats this.\n")
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[1]
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), CAUGHT.get(i, m["property"])))
out.append(TAIL)
open("DESIGN.md", "w").write("\n".join(out))
