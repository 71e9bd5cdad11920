"""make_nullable / is_nullable / is_optional over all terms in the bound."""
import json
from mc import terms as M
from mc.engine import observe
import recap.types as rt
from checks.C01 import NULL, INT, STR, PA, PB, ENUM, FULL, odd_terms

PID = "C05"
RULE = ("every type term in the bound with every combination of at most k attribute deviations, and with every empty, zero or false attribute value; for each: make nullable twice, "
        "make the result nullable again, ask nullability of each, and compare the receiver before and after")
ASSUMPTIONS = ["name, doc and default belong to the union, everything else to the wrapped type (documented)"]


def BOUNDS(tier):
    return {"max_nodes": 3 if tier == "quick" else 4, "deviations": 2 if tier == "quick" else 3}


def cases(tier):
    q = tier == "quick"
    for l in FULL:
        for k in range(0, 3 if q else 4):
            yield from M.deviate(l, k)
    for t in M.shapes(2, [NULL, INT, STR, PA, PB, ENUM]):
        for k in range(0, 3 if q else 4):
            yield from M.deviate(t, k)
    for t in M.shapes(3, [NULL, INT, STR, PA]):
        for k in range(0, 3):
            yield from M.deviate(t, k)
    for t in odd_terms():
        yield from M.odd(t)
    if not q:
        for t in M.shapes(4, [NULL, INT, PA]):
            for k in range(0, 2):
                yield from M.deviate(t, k)


def nullable(t):
    return t["k"] == "null" or (t["k"] == "union" and any(c["k"] == "null" for c in t["t"]))


def model(t):
    x = dict(t.get("x", {}))
    if t["k"] == "union":
        u = dict(t)
        u["x"] = {**x, "default": x.get("default")}
        if not nullable(t):
            u["t"] = [NULL] + list(t["t"])
        return u
    inner = {k: v for k, v in t.items() if k != "doc"}
    inner["x"] = {k: v for k, v in x.items() if k not in ("default", "name")}
    u = {"k": "union", "t": [inner] if t["k"] == "null" else [NULL, inner], "doc": t.get("doc"),
         "x": {"default": x.get("default")}}
    if "name" in x:
        u["x"]["name"] = x["name"]
    return u


def optional(t):
    bare = M.term_snap(NULL)
    s = [M.term_snap(c) for c in t["t"]]
    return bare in s and "default" in t.get("x", {}) and len([c for c in s if c != bare]) == 1


def run_case(t, ctx):
    ctx.count(states=1)
    reg = rt.RecapTypeRegistry()
    o = M.build(t, reg)
    before = M.snap(o)
    key = json.dumps(t, sort_keys=True)
    want = M.term_snap(model(t))

    def chk(label, got, exp):
        ctx.count(transitions=1)
        if got != exp:
            ctx.fail(f"{label}:{key}", f"{label}\n got {got}\nwant {exp}")

    chk("is_nullable", observe(o.is_nullable), ("ok", nullable(t)))
    ctx.outcome("already" if nullable(t) else "plain")
    r = observe(o.make_nullable)
    if r[0] != "ok":
        ctx.fail("raises:" + key, str(r))
        return
    n = r[1]
    chk("make_nullable", M.snap(n), want)
    chk("receiver changed", M.snap(o), before)
    r2 = observe(o.make_nullable)
    chk("second call", M.snap(r2[1]) if r2[0] == "ok" else r2, want)
    chk("receiver changed by second call", M.snap(o), before)
    chk("result is_nullable", observe(n.is_nullable), ("ok", True))
    r3 = observe(n.make_nullable)
    chk("idempotent", M.snap(r3[1]) if r3[0] == "ok" else r3, want)
    chk("first result changed", M.snap(n), want)
    # naming the result (what converters do) must not leak into the receiver or its siblings
    n.extra_attrs["name"] = "zzz"
    n.extra_attrs["default"] = 9
    n.doc = "zzz"
    chk("receiver linked to result", M.snap(o), before)
    r4 = observe(o.make_nullable)
    chk("call after naming the first result", M.snap(r4[1]) if r4[0] == "ok" else r4, want)
    if t["k"] == "union":
        chk("is_optional", observe(lambda: o.is_optional), ("ok", optional(t)))
    ctx.count(traces=1)
