"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "its specification and conformance check are not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
        "technique": c.get("technique", "TLA+ specification explored by TLC; its behaviours replayed into the crate; recorded traces judged by TLC"),
        "level": "model_checking",
        "level_note": c.get("note", "TLC checks the property exhaustively on the specification within the stated bounds; every explored transition, plus seeded random behaviours, is executed on the real crate and the recorded behaviour is checked by TLC to be one of the specification's. Trusted: TLC, the harness's observations, and the libraries below the crate."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is driven through the public API. See DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
