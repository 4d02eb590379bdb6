#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and lib/registry.py (development helper; the outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech])))
exec(open(os.path.join(V, "tools", "props.txt")).read())
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    assert x["statement"].count(". ") <= 2, x["id"]
json_lines = "\n".join(json.dumps(x) for x in P) + "\n"
open(os.path.join(V, "properties.jsonl"), "w").write(json_lines)
from registry import PROPS, NA
checks = []
for x in P:
    if x["id"] in PROPS:
        checks.append(dict(property=x["id"], quick_cmd="./vf check %s --tier quick" % x["id"], thorough_cmd="./vf check %s --tier thorough" % x["id"],
            technique="symbolic execution of the real code (LLVM bitcode of the assembler and linker) with SMT solving (z3)", level="model_checking",
            level_note=PROPS[x["id"]]["bounds"]))
na = [dict(property=x["id"], reason=NA.get(x["id"], "no check yet: under construction")) for x in P if x["id"] not in PROPS]
m = dict(version=1, setup_cmd="./vf setup", checks=checks, not_applicable=na, notes="Every check rebuilds bitcode and native executables from /repo's working tree. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
