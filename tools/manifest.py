"""writes MANIFEST.json from units.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
u = json.load(open(f"{V}/units.json"))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "check.py extracts the functions of units.json from /repo on every run, has Verus discharge their contracts, and searches for a failing input by executing the same contracts on the real crate."}
for i in ids:
    if i in u["properties"]:
        p = u["properties"][i]
        c = {"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
             "technique": p.get("technique", "contract-based deductive verification (Verus) of functions extracted from the source on every run, with executable-contract search for failing inputs"),
             "level": p["level"], "level_note": p.get("note", "")}
        if p.get("theorems"): c["theorems"] = p["theorems"]
        m["checks"].append(c)
    else:
        m["not_applicable"].append({"property": i, "reason": u.get("unclaimed", {}).get(i, "contracts in progress; not claimed yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
