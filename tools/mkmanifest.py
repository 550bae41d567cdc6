#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "static analysis: abstract interpretation of the SSA (value-numbering dataflow with joins, callees inlined) over classes of entry states, compared with the demanded effects"
claimed = {i: AI for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 C37 C38 C39 C44 C45 C46 C47 C48".split()}
claimed["C25"] = "static analysis: dataflow rules for error values over the SSA of every function (definite non-nil, dropped, overwritten, path-sensitive propagation to every return), and abstract interpretation of every method with each request failing in turn"
claimed["C22"] = "static analysis: interprocedural typestate of every lock over the SSA from all entry points, with a context-sensitive dataflow of values that point into the live state"
claimed["C21"] = "static analysis: interprocedural taint analysis over the SSA of the whole program, from every source of the password or key to every call that leaves the module"
exec(open(os.path.join(root, "tools", "claims.py")).read()) if os.path.exists(os.path.join(root, "tools", "claims.py")) else None
NA = {}
na_default = "no check built yet"
try:
    exec(open(os.path.join(root, "tools", "na.py")).read())
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "technique": claimed[i], "level": "other",
            "level_note": "Static analysis of the current source; no execution. Decides every obligation listed in the evidence file for all values of the quantities left unknown; the entry-state classes, models of library functions and bounds are described in DESIGN.md. Undecided obligations count as violations."})
    else:
        na.append({"property": i, "reason": NA.get(i, na_default)})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
