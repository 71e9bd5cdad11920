"""Create and confirm a planted bug:  mkseed.py <spec.py>
spec.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source; exit != 0 when broken)."""
import json, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests():
    sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/s/seed.json")
    d = json.load(open("/tmp/s/seed.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable")
    return sorted(set(want) - set(d["passed"]))


def main(spec):
    s = runpy.run_path(spec)
    assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
    d = f"{V}/seeded/{s['ID']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    ok = True
    if r.returncode:
        print("DEMO FAILS ON CLEAN", r.stdout[-800:], r.stderr[-800:]); ok = False
    try:
        for f, a, b in s["EDITS"]:
            p = "/repo/" + f
            t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode == 0:
            print("DEMO PASSES WITH PATCH"); ok = False
        t = tests()
        if t:
            print("TESTS BROKEN", t[:5]); ok = False
        caught = []
        for pid in [s["PROPERTY"]] + sys.argv[2:]:
            if os.path.exists(f"{V}/checks/{pid}.py"):
                r = sh(f"bash {V}/run.sh {pid} quick", cwd=V)
                caught.append((pid, r.returncode))
                if os.environ.get("SHOW"):
                    print(r.stdout[-1500:])
        print(s["ID"], "OK" if ok else "NOT USABLE", "checks:", caught)
    finally:
        sh("git -C /repo checkout -- .")
    if not ok and not os.environ.get("KEEP"):
        sh(f"mv {d} /tmp/s/rejected-{s['ID']}-{os.getpid()}")


main(sys.argv[1])
