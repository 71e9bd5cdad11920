"""Round trip: from_dict(to_dict(T, clean, alias)) is T."""
import json
from mc import terms as M
from mc.engine import observe
import recap.types as rt

PID = "C01"
RULE = ("every type term up to the node bound, every combination of at most k attribute deviations "
        "(doc, logical, default None/value, name, foreign attribute, alias, size parameters) on its nodes, every attribute value that is empty, zero or false alone and in pairs, "
        "each serialised in the 4 clean x alias modes")
ASSUMPTIONS = ["a reference to a built-in alias and the concrete type it stands for are the same type",
               "references to user aliases stay references"]

NULL = {"k": "null"}
INT = {"k": "int", "bits": 32}
STR = {"k": "string"}
PA = {"k": "proxy", "alias": "a.N1"}
PB = {"k": "proxy", "alias": "int64"}
ENUM = {"k": "enum", "symbols": ["A", "B"]}
FULL = ([NULL, {"k": "bool"}, ENUM, {"k": "enum", "symbols": []}]
        + [{"k": "int", "bits": b, "signed": s} for b in (1, 8, 16, 31, 32, 64, 2147483647) for s in (True, False)]
        + [{"k": "float", "bits": b} for b in (1, 16, 32, 64, 80)]
        + [{"k": k, "bytes": b, "variable": v} for k in ("string", "bytes") for b in (1, 16, 36, 2147483648, M.I64)
           for v in (True, False)]
        + [{"k": "string"}, {"k": "bytes"}]
        + [{"k": "proxy", "alias": a} for a in M.BUILTINS] + [PA]
        + list(M.BUILTINS.values()))


def BOUNDS(tier):
    q = tier == "quick"
    return {"leaf_terms": len(FULL), "leaf_deviations": "1 (2 on one leaf per kind)" if q else 3,
            "max_nodes": 4 if q else 5, "deviations_at_3_nodes": 2,
            "deviations_at_max_nodes": 0 if q else 1}


def opt(x):
    return {"k": "union", "t": [NULL, x]}


def cases(tier):
    q = tier == "quick"
    for l in FULL:
        for k in range(0, 2 if q else 4):
            yield from M.deviate(l, k)
    if q:
        for l in (NULL, INT, STR, PA, PB, ENUM, M.BUILTINS["uuid"]):
            yield from M.deviate(l, 2)
    l2 = [NULL, INT, STR, PA, PB, ENUM]
    for t in M.shapes(2, l2):
        for k in range(0, 3 if q else 4):
            yield from M.deviate(t, k)
    # nullable types are where attributes move around: three deviations
    for x in ((INT, PB, opt(INT)) if q else (INT, PA, PB, STR, {"k": "struct", "f": [INT]}, opt(INT), {"k": "list", "v": opt(INT)})):
        yield from M.deviate(opt(x), 3)
    yield from M.deviate({"k": "union", "t": [NULL]}, 3)
    l3 = [NULL, INT, PA] if q else [NULL, INT, PA, PB, STR]
    for t in M.shapes(3, l3):
        for k in range(0, 2):
            yield from M.deviate(t, k)
        if not q or t["k"] in ("union", "struct"):
            yield from M.deviate(t, 2, few if q else M.attr_devs)
    for t in M.shapes(4, [NULL, INT] if q else [NULL, INT, PA]):
        for k in range(0, 1 if q else 2):
            yield from M.deviate(t, k)
        if q and t["k"] == "struct":
            yield from M.deviate(t, 1, few)
    for t in odd_terms():
        yield from M.odd(t)
    # references and definitions two or more levels apart
    for a in ({"k": "struct", "f": [INT]}, INT, ENUM):
        al = dict(a, alias="a.N1")
        for ctx in wrappers(2 if q else 3):
            for ctx2 in wrappers(1 if q else 2):
                for order in (0, 1):
                    kids = [ctx(al), ctx2(PA)]
                    yield {"k": "struct", "f": kids if order == 0 else kids[::-1]}
    if not q:
        for t in M.shapes(5, [INT, PA], maxw=2):
            yield t


def odd_terms():
    b = {"k": "bool"}
    return [NULL, b, INT, STR, PA, PB, ENUM, M.BUILTINS["uuid"], {"k": "bytes"}, {"k": "float", "bits": 64}, {"k": "list", "v": INT}, {"k": "map", "key": STR, "v": b},
            {"k": "struct", "f": [INT]}, {"k": "struct", "f": []}, {"k": "union", "t": [INT, STR]}, opt(INT), opt(PA), opt(opt(INT)), opt({"k": "list", "v": INT}),
            dict(opt(INT), x={"default": None}), {"k": "struct", "f": [opt(ENUM), b]}, {"k": "list", "v": opt(STR)}, {"k": "union", "t": [INT, NULL]}]


def few(kind, idx):
    return [d for d in M.attr_devs(kind, idx) if d[0] in ("doc", "x.default", "x.name", "alias")
            and d[1] != 5]


W1 = [lambda x: x, lambda x: {"k": "list", "v": x}, lambda x: {"k": "map", "key": STR, "v": x},
      lambda x: {"k": "struct", "f": [x]},
      lambda x: {"k": "union", "t": [NULL, x], "x": {"default": None, "name": "u"}}]


def wrappers(n):
    if n == 0:
        return [lambda x: x]
    inner = wrappers(n - 1)
    out = list(inner)
    if n >= 1:
        for w in W1[1:]:
            for i in wrappers(n - 1) if n > 1 else [lambda x: x]:
                out.append(lambda x, w=w, i=i: w(i(x)))
    return out


def run_case(t, ctx):
    reg = rt.RecapTypeRegistry()
    o = M.build(t, reg)
    want_raw = M.term_snap(t)
    if M.snap(o) != want_raw:
        ctx.fail("construct:" + json.dumps(t), f"constructed {M.snap(o)} want {want_raw}")
        return
    want = M.term_snap(t, True)
    ds = M.defs(t)
    ctx.count(states=1)
    for clean in (True, False):
        for alias in (True, False):
            key = f"{clean},{alias}:" + json.dumps(t, sort_keys=True)
            r = observe(rt.to_dict, o, clean, alias)
            ctx.count(transitions=1)
            if r[0] != "ok":
                ctx.fail("to_dict:" + key, f"to_dict(clean={clean}, alias={alias}) raised {r[1:]}")
                continue
            d = r[1]
            try:
                js = json.dumps(d)
                d2 = json.loads(js)
            except Exception as e:
                ctx.fail("json:" + key, f"not JSON: {d!r}: {e}")
                continue
            if M.freeze(d2) != M.freeze(d):
                ctx.fail("json:" + key, f"JSON encoding changes {d!r}")
            if M.snap(o) != want_raw:
                ctx.fail("mutate:" + key, f"to_dict changed the type: {M.snap(o)}")
                return
            r2 = observe(rt.from_dict, d2)
            ctx.count(transitions=1)
            if r2[0] != "ok":
                ctx.fail("from_dict:" + key, f"from_dict({js}) raised {r2[1:]}")
                continue
            got = M.snap(r2[1], True)
            ctx.count(traces=1)
            if got != want:
                ctx.fail("differs:" + key, f"via {js}\n got {got}\nwant {want}")
                continue
            ctx.outcome(type(d).__name__ + ("" if clean else "-verbose"))
            if ds:
                for p in M.walk_obj(r2[1]):
                    if type(p).__name__ == "ProxyType" and p.alias in ds:
                        rr = observe(p.resolve)
                        ctx.count(transitions=1)
                        if rr[0] != "ok":
                            ctx.fail("resolve:" + key, f"reference {p.alias} does not resolve after reading {js}: {rr[1:]}")
    # writing again gives the same text
    a = observe(rt.to_dict, o)
    b = observe(rt.to_dict, o)
    if a[0] == "ok" and M.freeze(a[1]) != M.freeze(b[1]):
        ctx.fail("unstable:" + json.dumps(t), f"{a[1]} then {b[1]}")
