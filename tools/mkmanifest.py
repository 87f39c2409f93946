"""Writes MANIFEST.json: a check per module in mc/checks, everything else is listed as not applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "mc", "checks", p.lower() + ".py")):
        n = NOTES[p]
        checks.append({"property": p, "quick_cmd": "bash check.sh %s quick" % p,
                       "thorough_cmd": "bash check.sh %s thorough" % p,
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": p, "reason": NOTES.get(p, {}).get("na", "no check built for it yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
