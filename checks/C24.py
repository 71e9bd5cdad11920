"""Recap -> JSON Schema: the generated schema accepts exactly the values of the type."""
import copy, itertools, json
from mc import terms as M
from mc.engine import observe

PID = "C24"
RULE = ("every leaf type (and built-in alias) in every chain of list / map / nullable / optional / union / struct contexts; all pairs of fields and of union alternatives; "
        "every placement of an alias definition and of references to it, recursive ones included; each with every type-directed small JSON value (all universal values in every "
        "position, every field left out, every alternative).  Each generated schema is run by the jsonschema validator on each value and compared with a membership model")
ASSUMPTIONS = ["sizes, lengths, bit widths and map keys are not expressed", "whether an optional field may also be explicitly null is not judged (the tests fix that it may not)",
               "additional properties are allowed", "defaults are JSON values", "every field has a name",
               "whether a field with a default and several non-null alternatives may be left out is not judged"]
CASE_TIMEOUT = 300
U = [None, True, 0, 1.5, "", "A", "B", [], {}, [0], [None], {"k": 0}, {"k": None}]
NOVAL = object()


def leaves():
    out = [{"k": "null"}, {"k": "bool"}, {"k": "int", "bits": 32}, {"k": "int", "bits": 64, "signed": False}, {"k": "float", "bits": 64}, {"k": "string"},
           {"k": "string", "bytes": 36, "variable": False, "logical": "build.recap.UUID"}, {"k": "bytes"}, {"k": "enum", "symbols": ["A"]}, {"k": "enum", "symbols": ["B", "A"]},
           {"k": "struct", "f": []}, {"k": "proxy", "alias": "int32"}, {"k": "proxy", "alias": "decimal128"}, {"k": "proxy", "alias": "uuid"}, {"k": "proxy", "alias": "float64"}]
    return out


L = leaves()
CTX = ["list", "map", "null", "opt", "union", "struct", "ostruct"]


def with_x(t, doc=None, **x):
    t = copy.deepcopy(t)
    t["x"] = dict(t.get("x", {})) | x
    if doc is not None:
        t["doc"] = doc
    return t


def wrap(c, t, k=0):
    if c == "list":
        return {"k": "list", "v": t}
    if c == "map":
        return {"k": "map", "key": {"k": "string"}, "v": t}
    if c == "null":
        return {"k": "union", "t": [{"k": "null"}, t]}
    if c == "opt":
        return {"k": "union", "t": [{"k": "null"}, t], "x": {"default": None}}
    if c == "union":
        return {"k": "union", "t": [t, {"k": "list", "v": {"k": "bool"}}]}
    f = with_x(t, name="w")
    if c == "ostruct":
        f = {"k": "union", "t": [{"k": "null"}, t], "x": {"default": None, "name": "w"}}
    return {"k": "struct", "f": [f, with_x({"k": "bool"}, name="v")]}


def top(fields, **k):
    return {"k": "struct", "f": fields} | k


def BOUNDS(tier):
    return {"leaves": len(L), "context depth": 2 if tier == "quick" else 3, "universal values": len(U)}


def cases(tier):
    d = 2 if tier == "quick" else 3
    for i in range(len(L)):
        for c in [None] + CTX:
            yield {"leaf": i, "ctx": c, "depth": d}
    for i in range(len(L)):
        yield {"pairs": i}
    yield {"order": 1}
    for k in range(len(KINDS)):
        for a in range(len(PLACES)):
            yield {"alias": k, "place": a}
    yield {"rec": 1}
    yield {"mapkey": 1}


# ---- membership

def resolve(t, defs):
    if t["k"] == "proxy":
        if t["alias"] in M.BUILTINS:
            return M.expand_builtin(t)
        d = copy.deepcopy(defs[t["alias"]])
        d.pop("doc", None)
        d["x"] = {k: v for k, v in d.get("x", {}).items() if k not in ("default",)} | t.get("x", {})
        return d
    return t


def optional(f, defs):
    """True: may be left out; None: not judged."""
    f = resolve(f, defs)
    if "default" not in f.get("x", {}):
        return False
    if f["k"] == "null":
        return None
    if f["k"] != "union" or not any(resolve(c, defs)["k"] == "null" for c in f["t"]):
        return False
    nn = [c for c in f["t"] if resolve(c, defs)["k"] != "null"]
    if len(nn) == 1 and len(f["t"]) == 2 and {"k": "null"} in f["t"]:
        return True
    return None


def belongs(t, v, defs):
    t = resolve(t, defs)
    k = t["k"]
    if k == "null":
        return v is None
    if k == "bool":
        return isinstance(v, bool)
    if k == "int":
        return isinstance(v, int) and not isinstance(v, bool)
    if k == "float":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if k in ("string", "bytes"):
        return isinstance(v, str)
    if k == "enum":
        return isinstance(v, str) and v in t["symbols"]
    if k == "list":
        return isinstance(v, list) and every(belongs(t["v"], x, defs) for x in v)
    if k == "map":
        return isinstance(v, dict) and every(belongs(t["v"], x, defs) for x in v.values())
    if k == "union":
        r = [belongs(c, v, defs) for c in t["t"]]
        return True if True in r else None if None in r else False
    if not isinstance(v, dict):
        return False
    r = []
    for f in t["f"]:
        n = f["x"]["name"]
        o = optional(f, defs)
        if n not in v:
            r.append(o)
        elif v[n] is None and o is not False:
            r.append(None)
        else:
            r.append(belongs(f, v[n], defs))
    return every(r)


def every(r):
    r = list(r)
    return False if False in r else None if None in r else True


def good(t, defs, d=4):
    t = resolve(t, defs)
    k = t["k"]
    if k == "list":
        return []
    if k == "map":
        return {}
    if k == "union":
        return good(t["t"][0], defs, d)
    if k == "struct":
        return {f["x"]["name"]: good(f, defs, d - 1) for f in t["f"] if not optional(f, defs)} if d else {}
    if k == "enum":
        return t["symbols"][0]
    return {"null": None, "bool": True, "int": 0, "float": 1.5, "string": "", "bytes": ""}[k]


def values(t, defs, d):
    t = resolve(t, defs)
    out = list(U)
    if d == 0:
        return out + [good(t, defs)]
    k = t["k"]
    if k == "list":
        g = good(t["v"], defs)
        for v in values(t["v"], defs, d - 1):
            out += [[v], [g, v]]
    elif k == "map":
        g = good(t["v"], defs)
        for v in values(t["v"], defs, d - 1):
            out += [{"k": v}, {"k": g, "l": v}]
    elif k == "union":
        for c in t["t"]:
            out += values(c, defs, d - 1)
    elif k == "struct":
        b = {f["x"]["name"]: good(f, defs) for f in t["f"]}
        out += [b, b | {"extra": 0}]
        for f in t["f"]:
            n = f["x"]["name"]
            out.append({k: v for k, v in b.items() if k != n})
            out += [b | {n: v} for v in values(f, defs, d - 1)]
    seen, res = set(), []
    for v in out:
        s = json.dumps(v, sort_keys=True)
        if s not in seen:
            seen.add(s)
            res.append(v)
    return res


def nodes(t):
    yield t
    for _, c in M.children(t):
        yield from nodes(c)


def judge(ctx, t, key=None, depth=3):
    from jsonschema.validators import Draft202012Validator
    from recap.converters.json_schema import JSONSchemaConverter
    from recap.types import RecapTypeRegistry
    key = key or "/".join(sorted({n["k"] for n in nodes(t)}))
    defs = {n["alias"]: n for n in nodes(t) if n.get("alias") and n["k"] != "proxy"}
    if any(n["k"] == "union" and all(resolve(c, defs)["k"] == "null" for c in n["t"]) and any(c.get("doc") or c.get("x") or c.get("alias") for c in n["t"]) for n in nodes(t)):
        return      # null | null, one of them with attributes
    reg = RecapTypeRegistry()
    obj = M.build(t, reg)
    for o in list(M.walk_obj(obj)):
        if o.alias and type(o).__name__ != "ProxyType":
            reg.register_alias(o)
    before = M.snap(obj)
    ctx.count(states=1, traces=1)
    got = observe(JSONSchemaConverter().from_recap, obj)
    if M.snap(obj) != before:
        ctx.fail("input changed", f"{t}: the type was changed by converting it")
    if got[0] != "ok":
        ctx.fail("raises:" + key, f"{t}: {got}")
        return
    text = observe(json.dumps, got[1])
    if text[0] != "ok":
        ctx.fail("json:" + key, f"{t}: not JSON: {got[1]}")
        return
    schema = json.loads(text[1])
    ok = observe(Draft202012Validator.check_schema, schema)
    if ok[0] != "ok":
        ctx.fail("invalid:" + key, f"{t}: {text[1]}: {ok[2][:200]}")
        return
    val = Draft202012Validator(schema)
    for v in values(t, defs, depth):
        ctx.count(transitions=1)
        r = observe(val.is_valid, v)
        if r[0] != "ok":
            ctx.fail("reference:" + key, f"{t}: {text[1]} on {json.dumps(v)}: {r}")
            return
        e = belongs(t, v, defs)
        if e is None:
            ctx.outcome("not judged")
            continue
        ctx.outcome("accepted" if e else "rejected")
        if r[1] != e:
            ctx.fail(("rejects:" if e else "accepts:") + key, f"{t}: {text[1]} {'accepts' if r[1] else 'rejects'} {json.dumps(v)}")
            return
    if not t.get("alias"):
        attributes(ctx, t, schema, key)


def attributes(ctx, t, s, key):
    """Docs and defaults of structs' fields, wherever they are written in place."""
    if "$ref" in s:
        return
    if t["k"] == "struct":
        for f in t["f"]:
            p = s["properties"][f["x"]["name"]]
            if "$ref" not in p:
                if f.get("doc") and p.get("description") != f["doc"]:
                    ctx.fail("doc:" + key, f"{t}: {json.dumps(s)} lost the doc {f['doc']!r}")
                if "default" in f["x"] and not ("default" in p and type(p["default"]) is type(f["x"]["default"]) and p["default"] == f["x"]["default"]):
                    ctx.fail("default:" + key, f"{t}: {json.dumps(s)} lost the default {f['x']['default']!r}")
                if not f.get("doc") and "description" in p and not any(n.get("doc") == p["description"] for n in nodes(f)):
                    ctx.fail("doc:" + key, f"{t}: {json.dumps(s)} has a made-up doc")
            attributes(ctx, f, p, key)
        req = s.get("required", [])
        if len(set(req)) != len(req):
            ctx.fail("required:" + key, f"{t}: {json.dumps(s)}")
    elif t["k"] == "list":
        attributes(ctx, t["v"], s["items"], key)
    elif t["k"] == "map":
        attributes(ctx, t["v"], s["additionalProperties"], key)


KINDS = [{"k": "int", "bits": 32}, {"k": "string"}, {"k": "null"}, {"k": "enum", "symbols": ["A"]}, {"k": "struct", "f": [with_x({"k": "bool"}, name="x")]},
         {"k": "list", "v": {"k": "bool"}}, {"k": "map", "key": {"k": "string"}, "v": {"k": "bool"}}, {"k": "union", "t": [{"k": "string"}, {"k": "bool"}]},
         {"k": "union", "t": [{"k": "null"}, {"k": "bool"}]}, {"k": "struct", "f": [with_x({"k": "int", "bits": 8, "alias": "a.Inner"}, name="x")]}]
PLACES = [None, "list", "map", "null", "opt", "union", "struct", "ostruct"]


def run_case(case, ctx):
    if "leaf" in case:
        leaf = L[case["leaf"]]
        for d in range(case["depth"] + 1):
            for chain in itertools.product(CTX, repeat=d):
                if (chain[0] if chain else None) != case["ctx"]:
                    continue
                t = leaf
                for k, c in enumerate(chain):
                    t = wrap(c, t, k)
                x = {n: v for n, v in t.get("x", {}).items()}
                if d <= 1:
                    for doc, df in itertools.product((None, "d"), (NOVAL, None, 0, "x")):
                        y = {} if df is NOVAL else {"default": df}
                        judge(ctx, top([with_x(t, doc, **y, name="a")]), depth=d + 2)
                        if chain:
                            judge(ctx, top([with_x(wrap(chain[0], with_x(leaf, "inner")), doc, **y, name="a")]), depth=d + 2)
                            judge(ctx, top([with_x(wrap(chain[0], with_x(leaf, "inner", default=1)), doc, name="a")]), depth=d + 2)
                judge(ctx, top([with_x(t, name="a")]), depth=d + 1)
                judge(ctx, {"k": "list", "v": t}, depth=d + 1) if d <= 1 else None
    elif "pairs" in case:
        a = L[case["pairs"]]
        for b in L:
            judge(ctx, top([with_x(a, "x", name="z"), with_x(b, "d", name="a", default=1)]))
            for c in ("null", "opt", "list"):
                judge(ctx, top([with_x(wrap(c, a), name="z"), with_x(b, name="a")]))
            for u in ([a, b], [{"k": "null"}, a, b], [a, {"k": "null"}, b]):
                for df in ({}, {"default": None}, {"default": 0}):
                    judge(ctx, top([with_x({"k": "union", "t": u}, name="u", **df)]))
                    judge(ctx, top([with_x({"k": "list", "v": with_x({"k": "union", "t": u}, **df)}, name="u")]))
            judge(ctx, top([with_x({"k": "union", "t": [{"k": "list", "v": a}, {"k": "list", "v": b}]}, name="u")]))
            judge(ctx, top([with_x({"k": "union", "t": [top([with_x(a, name="p")]), top([with_x(b, name="p")])]}, name="u")]))
            judge(ctx, top([with_x({"k": "union", "t": [top([with_x(a, name="p")]), {"k": "map", "key": {"k": "string"}, "v": b}]}, name="u")]))
    elif "order" in case:
        pool = [{"k": "int", "bits": 32}, {"k": "string"}, wrap("opt", {"k": "bool"}), {"k": "enum", "symbols": ["A"]}, wrap("null", {"k": "float", "bits": 64}), wrap("opt", {"k": "int", "bits": 8})]
        names = ["a", "required", "type", "$ref", "default", "x y"]
        for n in range(0, 5):
            for p in itertools.permutations(range(6), n):
                judge(ctx, top([with_x(pool[i], name=names[i]) for i in p]), depth=2)
        for n in (1, 2, 3):
            for p in itertools.permutations([{"k": "null"}, {"k": "int", "bits": 32}, {"k": "string"}, {"k": "float", "bits": 32}, {"k": "bool"}], n):
                judge(ctx, top([with_x({"k": "union", "t": list(p)}, name="u")]), depth=2)
    elif "alias" in case:
        kd, p = KINDS[case["alias"]], PLACES[case["place"]]
        al = "a.B"
        nulls = {"null", "opt", "ostruct"}
        if kd["k"] == "null" and p in nulls:
            return      # null | null
        for q, x, refdoc in itertools.product(PLACES, ({}, {"default": 1}), (None, "rd")):
            d = dict(copy.deepcopy(kd), alias=al)
            r = {"k": "proxy", "alias": al}
            if refdoc:
                r["doc"] = refdoc
            dd = wrap(p, d) if p else d
            rr = wrap(q, r) if q else r
            for order in ((0, 1, 2), (0, 2, 1), (2, 1, 0)):
                fs = [with_x(dd, name="f"), with_x(rr, name="g", **(x if q is None else {})), with_x(r, name="h")]
                if order[0] != 0 and kd["k"] != "struct":
                    continue
                if kd["k"] == "null" and q in nulls:
                    continue
                judge(ctx, top([fs[i] for i in order]), key=f"alias:{kd['k']}:{p}:{q}", depth=3)
            if kd["k"] == "null" and q in nulls:
                continue
            judge(ctx, dict(top([with_x(dd, "fd", name="f"), with_x(rr, name="g")]), alias="a.Top"), key=f"alias-top:{kd['k']}:{p}:{q}")
            judge(ctx, top([with_x(dd, "fd", name="f", default=1), with_x(rr, name="g")]), key=f"alias-default:{kd['k']}:{p}:{q}") if p is None and kd["k"] != "union" else None
    elif "mapkey" in case:
        t = top([with_x({"k": "map", "key": {"k": "string", "alias": "a.Key"}, "v": {"k": "proxy", "alias": "a.Key"}}, name="m")])
        judge(ctx, t, key="alias-in-map-key")
    else:
        for c1, c2 in itertools.product(["list", "map", "null", "opt", "ostruct"], repeat=2):
            for mid in ("list", "map", "null", "opt"):
                node = {"k": "struct", "alias": "a.Node", "f": [with_x({"k": "string"}, name="s"), with_x(wrap(c1, {"k": "proxy", "alias": "a.Node"}), name="n"),
                                                               with_x(wrap(mid, {"k": "proxy", "alias": "a.Node"}), name="m")]}
                judge(ctx, node, key=f"rec:{c1}:{mid}", depth=3)
                judge(ctx, top([with_x(node, name="first"), with_x(wrap(c2, {"k": "proxy", "alias": "a.Node"}), name="second"), with_x({"k": "proxy", "alias": "a.Node"}, name="third")]), key=f"rec:{c1}:{mid}:{c2}", depth=3)
