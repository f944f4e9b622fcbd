import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(R, "tools", "manifest_data.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for pid in props:
    if pid in NOTES:
        t, note = NOTES[pid]
        checks.append({"property": pid, "quick_cmd": "./run.sh %s quick" % pid,
                       "thorough_cmd": "./run.sh %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": t, "level": "model_checking", "level_note": note})
na = [{"property": q, "reason": NA.get(q, "check under construction")} for q in props if q not in NOTES]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": GENERAL},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
