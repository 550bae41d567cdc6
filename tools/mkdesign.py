#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (from properties.jsonl, the rules'
own explanations in the evidence of the last run and tools/na.py), tools/design_tail.md, and the table of seeded changes."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *p: os.path.join(root, *p)
NA = {}
exec(open(J("tools", "na.py")).read())
man = json.load(open(J("MANIFEST.json")))
tech = {c["property"]: c["technique"] for c in man["checks"]}
WHY = {}
exec(open(J("tools", "why.py")).read())
out = [open(J("tools", "design_head.md")).read()]
out.append("## Properties\n")
for l in open(J("properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*{p['statement']}*\n")
    if i in NA:
        out.append(f"Not applicable. {NA[i]}\n")
        continue
    e = json.load(open(J("evidence", i + ".json")))
    c = e["coverage"]
    out.append(f"Method: {tech[i]}.\n")
    x = c["explanation"]
    out.append(x[0].upper() + x[1:] + "\n")
    rl = ", ".join(f"{k} ({n})" for k, n in sorted(c["rules"].items()))
    out.append(f"Obligations on the current tree: {c['obligations']} over {len(c['functions_analysed'])} functions, about {max(1, round(e['wall_s']))} s. By rule: {rl}.\n")
    if e.get("assumptions"):
        out.append("Assumed: " + "; ".join(a.rstrip(".") for a in e["assumptions"]) + ".\n")
    if i in WHY:
        out.append("Beyond the tests: " + WHY[i] + "\n")
out.append(open(J("tools", "design_tail.md")).read())
out.append("\n## Seeded changes\n\nEach breaks the named property, compiles and passes the tests; `demo.sh` shows it. Caught by the property's own check unless said otherwise.\n\n| change | property | needs | what it breaks |\n|---|---|---|---|")
for f in sorted(glob.glob(J("seeded", "*", "meta.json"))):
    m = json.load(open(f))
    cl = lambda s: s.replace("|", "/").replace("\n", " ")
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {cl(m['needs'])} | {cl(m['what_it_breaks'])} |")
open(J("DESIGN.md"), "w").write("\n".join(out) + "\n")
