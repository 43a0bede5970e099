"""Writes MANIFEST.json from properties.jsonl and contracts/meta.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from contracts import meta
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = meta.NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo; repairs are the fix: commits listed in known_findings.json."}
for p in props:
    i = p["id"]
    if i in NA:
        continue
    lv, note = meta.LEVEL.get(i, meta.DEFAULT_LEVEL)
    m["checks"].append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                        "technique": meta.TECHNIQUE.get(i, meta.DEFAULT_TECHNIQUE), "level": lv, "level_note": note})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]))
