#!/usr/bin/env python3
"""Writes MANIFEST.json and DESIGN.md from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": "not built yet"}); continue
    s = PLAN[i]
    checks.append({"property": i, "quick_cmd": "python3 run.py %s --quick" % i, "thorough_cmd": "python3 run.py %s --thorough" % i,
                   "technique": s["technique"], "level": s["level"], "level_note": s["note"] + " Trusts the compilers, the harness and the reference model.",
                   "evidence_file": "evidence/%s.json" % i})
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: the harnesses use only the public interface of the headers. No check draws anything at random, so VERIF_SEED has no influence."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
costs = {}
cf = os.path.join(HERE, "tools", "costs.json")
if os.path.exists(cf): costs = json.load(open(cf))
for p in props:
    f = os.path.join(HERE, "evidence", p["id"] + ".json")
    if os.path.exists(f):
        e = json.load(open(f)); costs.setdefault(p["id"], {})[e["tier"]] = e["wall_s"]
json.dump(costs, open(cf, "w"), indent=0, sort_keys=True)
o = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
o.append("## Properties\n")
for p in props:
    i = p["id"]
    o.append("### %s %s\n" % (i, p["title"]))
    if i not in PLAN: o.append("Not built yet.\n"); continue
    s = PLAN[i]
    o.append("* Enumerated: %s." % s["bound"])
    o.append("* Oracle: %s." % s["oracle"])
    o.append("* Builds: %s; level %s." % (", ".join((b.get("name") or b["flavour"] + ("-" + b["tag"] if b.get("tag") else "")) for b in s["builds"]), s["level"]))
    c = costs.get(i, {})
    o.append("* Cost: " + (", ".join("%s %d s" % (k, round(v)) for k, v in c.items()) or "not measured") + " on 8 cores.")
    o.append("* Beyond tests: %s\n" % (s.get("why") or p["why_tests_cant"]))
o.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
o.append("## Planted bugs\n\nEach was confirmed to compile, to pass the project's tests and to fail its own demonstration. Last column: verdict of the\nquick tier of the property's check.\n")
o.append("| Bug | Property | What it breaks | Verdict |\n|---|---|---|---|")
for r in json.load(open(os.path.join(HERE, "tools", "planted.json"))): o.append("| %s | %s | %s | %s |" % (r["id"], r["property"], r["what"], r["verdict"]))
o.append("")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(o))
