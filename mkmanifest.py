#!/usr/bin/env python3
"""writes MANIFEST.json from props.json (claimed: entries without "na")"""
import json
P = json.load(open("props.json"))
IDS = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in IDS:
    p = P.get(i, {"na": "not built yet"})
    if "na" in p:
        na.append({"property": i, "reason": p["na"]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": p.get("technique", "contracts on the extracted real functions, discharged by Verus (Z3); bounded replay search for witnesses and for the parts outside contracts"),
        "level": p["level"],
        "level_note": p["note"],
    })
M = {"version": 1,
     "setup_cmd": "cd extract && cargo build --offline --locked && cd ../replay && cargo build --offline --locked --release",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Verdict rules and per-property contracts: DESIGN.md."}
json.dump(M, open("MANIFEST.json", "w"), indent=1)
