#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
TECH = "SMT-based symbolic execution of the real code (LLVM IR, symx + Z3), native replay"
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p["over"], "text": p["for_all"]}
        d["why_tests_cant"] = p["tests"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                            "technique": TECH + (" " + p["tech"] if p.get("tech") else ""), "level": "model_checking",
                            "level_note": "Bounded: " + p["bounds"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
dm = os.path.join(here, "DESIGN.md")
MARK = "<!-- generated by gen.py from props.py and checks.py -->\n"
END = "<!-- end of the generated part -->\n"
txt = open(dm).read()
head, rest = txt.split(MARK)
tail = rest.split(END)[1] if END in rest else "\n"
out = ""
for p in PROPS:
    i = p["id"]
    out += "\n### %s %s\n\n%s\n\n" % (i, p["title"], p["statement"])
    out += "* Quantified over: %s.\n* Why tests cannot settle it: %s\n" % (p["for_all"], p["tests"])
    if i in CHECKS:
        out += "* Decided by: " + "; ".join("`%s` (harness/%s, %d quick runs%s)" % (j.name, j.harness, len(j.params) if j.quick else 0, ", %d thorough" % len(j.tparams) if j.tparams else "") for j in CHECKS[i]["jobs"]) + ".\n"
        out += "* Bounds: %s\n" % p["bounds"]
        if p.get("oracle"): out += "* Oracle: %s\n" % p["oracle"]
    else:
        out += "* Not applicable: %s\n" % NOT_APPLICABLE[i]
out += "\n## Planted bugs\n\n"
sd = os.path.join(here, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    f = os.path.join(sd, s, "meta.json")
    if os.path.exists(f):
        d = json.load(open(f))
        out += "* `%s` (%s): %s. Needs: %s. %s\n" % (s, d["property"], d["what_it_breaks"], d["needs"], d.get("caught", ""))
open(dm, "w").write(head + MARK + out + "\n" + END + tail)
