#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and DESIGN.md from meta.py, design_head.md and seeded/results.json."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
TECH = "bounded symbolic execution of the real C code (goto-cc + CBMC), SAT verdict, counterexample replayed on a native build"
props, checks, na, design = [], [], [], []
for p in PROPS:
    fs = p["files"]
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
    for f in fs:
        assert os.path.exists("/repo/" + f), f
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                  "anchors": {"files": fs, "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                              "observe_at": p.get("observe", []), "hook_needed": None}})
    design.append(f"### {p['id']} — {p['title']}\n\n{p['statement']}\n")
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
        design.append("Not applicable: " + NOT_APPLICABLE[p["id"]] + "\n")
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                   "thorough_cmd": f"python3 check.py {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p.get("tech", TECH), "level": "other",
                   "level_note": p["note"]})
    design.append(f"*How it is decided.* {p['design']}\n\n*Bounds and trust.* {p['note']}\n")
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: harnesses in /verif/props compile /repo's sources directly. See DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
head = open(V + "/design_head.md").read()
res = ""
rp = V + "/seeded/results.json"
if os.path.exists(rp):
    r = json.load(open(rp))
    res = "\n## Planted bugs and what catches them\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
    for d in sorted(os.listdir(V + "/seeded")):
        mp = f"{V}/seeded/{d}/meta.json"
        if os.path.exists(mp):
            m = json.load(open(mp))
            res += f"| {d} | {m['property']} | {m['needs']} | {r.get(d, 'not run')} |\n"
kf = json.load(open(V + "/known_findings.json"))
kft = "\n## Genuine defects found\n\n" + "".join("- " + (k.get("line") or f"open: property={k['property']} {k['what']}") + "\n" for k in kf)
open(V + "/DESIGN.md", "w").write(head + "\n## Properties\n\n" + "\n".join(design) + kft + res)
