"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + "/tools/claims.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T["claims"]:
        t = T["claims"][i]
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i, "thorough_cmd": "python3 checks/%s.py --thorough" % i,
                       "technique": t["technique"], "level": t.get("level", "exploration"), "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": T["not_applicable"].get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": T.get("notes", "")}
if T.get("hooks"): m["hooks"] = T["hooks"]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
