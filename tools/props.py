#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: every property, claimed or not."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None, state=None, level="other"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a, "_t": technique, "_n": note, "_na": na, "_l": level})
exec(open(os.path.join(V, "tools", "props_data.py")).read())
assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
           "technique": p["_t"], "level": p["_l"], "level_note": p["_n"]} for p in P if p["_t"]]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in P if not p["_t"]],
     "notes": "All checks read MIR facts extracted from /repo's current tree (driver/, tools/extract.sh); see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]; assert p["_t"] or p["_na"], p["id"]
    assert p["statement"].count(". ") <= 3, p["id"]
    for fn in p["anchors"]["files"]: assert os.path.exists("/repo/" + fn), (p["id"], fn)
    if p["_t"]: assert os.path.exists(os.path.join(V, "rules", p["id"].lower() + ".py")), p["id"]
print(len(P), "properties,", len(checks), "claimed")
