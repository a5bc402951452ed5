"""props.py: writes properties.jsonl and MANIFEST.json from the list below (one place, so that they stay in step)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, technique, note, na))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "All checks are static analyses of /repo's current sources (clang AST facts, value-numbering dataflow, "
              "algebraic normal forms). None of them runs code of the repository."}
for p, tech, note, na in P:
    if na:
        m["not_applicable"].append({"property": p["id"], "reason": na})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                            "thorough_cmd": "./check %s thorough" % p["id"], "technique": tech, "level": "other",
                            "level_note": note})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
