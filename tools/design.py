"""Writes DESIGN.md: the text below, plus tables from tools/props.py-derived data, checks/*.py and seeded/*.  python3 tools/design.py"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = {p["id"]: p for p in map(json.loads, open(V + "/properties.jsonl"))}
HEAD = open(V + "/tools/design_head.md").read()
TAIL = open(V + "/tools/design_tail.md").read()
COST = json.load(open(V + "/tools/cost.json"))

NOTE = {c["property"]: c["level_note"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}


def dictline(d):
    return "; ".join(f"{k}: {', '.join(map(str, v)) if isinstance(v, list) else v}" for k, v in d.items())


out = [HEAD, "## 3. Per property\n"]
for pid in sorted(props):
    p = props[pid]
    m = importlib.import_module("checks." + pid)
    q, t = COST.get(pid, [None, None])
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"* **Enumerated** (`checks/{pid}.py`): {m.RULE}.")
    out.append(f"* **Oracle and reach**: {NOTE[pid]} {p['why_tests_cant']}")
    out.append(f"* **Bounds**: quick - {dictline(m.BOUNDS('quick'))}. Thorough - {dictline(m.BOUNDS('thorough'))}.")
    out.append(f"* **Assumptions / not judged**: {'; '.join(m.ASSUMPTIONS)}.")
    if q:
        out.append(f"* **Cost** (8 idle cores): quick {q}" + (f"; thorough {t}." if t else "."))
    out.append("")
seeds = []
for d in sorted(os.listdir(V + "/seeded")):
    j = json.load(open(f"{V}/seeded/{d}/meta.json"))
    seeds.append(f"| {d} | {j['needs']} | {j.get('caught_by', j['property'])} |")
out.append("## 4. Planted bugs and the checks that catch them\n\n| bug | needs | caught by |\n|---|---|---|\n" + "\n".join(seeds) + "\n")
out.append(TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(out))
