"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from one table,
so that the two never drift apart.  Run: python3 tools/gen.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = "recap/types.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note,
         level="model_checking", observe=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, technique=technique, note=note,
                  level=level, observe=observe or [], claimed=claimed, reason=reason))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["text"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")

checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py"))
    if p["claimed"] and have:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash run.sh {p['id']} quick",
            "thorough_cmd": f"bash run.sh {p['id']} thorough",
            "technique": p["technique"], "level": p["level"],
            "level_note": " ".join(p["note"].split()),
        })
    else:
        na.append({"property": p["id"],
                   "reason": p["reason"] or "check not built yet (work in progress)"})
manifest = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
            "not_applicable": na,
            "notes": "All checks drive the real code in /repo; no hooks were added to /repo. "
                     "Known findings are in /verif/known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1); f.write("\n")
print(len(P), "properties", len(checks), "claimed")
