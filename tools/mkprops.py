"""Source of properties.jsonl (python3 tools/mkprops.py)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})


exec(open(os.path.join(os.path.dirname(__file__), "props_data.py")).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for q in sorted(P, key=lambda q: q["id"]):
        fh.write(json.dumps(q) + "\n")
print(len(P), "properties")
