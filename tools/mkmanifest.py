"""regenerates MANIFEST.json from properties.jsonl and tools/levels.json"""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
levels = {}
p = os.path.join(H, "tools", "levels.json")
if os.path.exists(p):
    levels = json.load(open(p))
checks = []
for line in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    lv = levels.get(i, {"level": "exploration", "note": "contracts evaluated on the real code (bounded stand-in)"})
    checks.append({"property": i, "quick_cmd": "python3-vt check.py --property %s --tier quick" % i,
                   "thorough_cmd": "python3-vt check.py --property %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "contract-based deductive verification: VCs generated from /repo's Python source, discharged by a term normaliser and z3; contracts replayed on the real code",
                   "level": lv["level"], "level_note": lv["note"]})
json.dump({"version": 1, "setup_cmd": "python3-vt setup_check.py", "checks": checks, "not_applicable": []}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
