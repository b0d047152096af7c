#!/usr/bin/env python3
"""One table of properties -> properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, check=None, tech=None, note=None, level="model_checking", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  check=check, tech=tech, note=note, level=level, na=na))


exec(open(os.path.join(V, "tools", "properties_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in P:
    if p["check"] and os.path.exists(os.path.join(V, p["check"])):
        m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 " + p["check"],
                            "thorough_cmd": "VERIF_TIER=thorough python3 " + p["check"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "the check for this property is not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
