#!/usr/bin/env python3
"""Fills DESIGN.md's generated parts from tools/design.md, props.txt, registry, known_findings.json and tools/seedlog.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import PROPS, NA
s = open(os.path.join(V, "tools", "design.md")).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
o = []
for p in props:
    i = p["id"]; o.append("### %s %s" % (i, p["title"])); o.append("")
    o.append(p["statement"]); o.append("")
    if i in PROPS:
        o.append("*Bounds:* " + PROPS[i]["bounds"] + "." )
        o.append("*Scenarios:* " + ", ".join(sorted({j.scen for j in PROPS[i]["jobs"]})) + " (%d jobs; CPUs/tools: %s)." % (len(PROPS[i]["jobs"]), ", ".join(sorted({m for j in PROPS[i]["jobs"] for m in j.mods}))))
        o.append("*Why tests cannot:* " + p["why_tests_cant"])
        if notes.get(i): o.append("*Oracle and limits:* " + notes[i])
    else:
        o.append("Not applicable: " + NA.get(i, "planned; no check yet."))
    o.append("")
kf = json.load(open(os.path.join(V, "known_findings.json")))
seeds = []
log = json.load(open(os.path.join(V, "tools", "seedlog.json"))) if os.path.exists(os.path.join(V, "tools", "seedlog.json")) else {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], log.get(d, "")))
s = s.replace("@PROPS@", "\n".join(o)).replace("@FIXED@", "\n".join("* " + f for f in kf["fixed"])).replace("@KNOWN@", "\n".join("* %s (`%s`): %s" % (f["property"], f["id"], f["what"]) for f in kf["findings"])).replace("@SEEDS@", "| id | property | what it breaks | caught |\n|---|---|---|---|\n" + "\n".join(seeds))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
