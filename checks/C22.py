"""Recap -> Avro -> Recap: widths, refusals and read-back, against a reference mapping."""
import copy, itertools, json
from mc import terms as M
from mc import avromodel as A
from mc.engine import observe

PID = "C22"
I64 = M.I64
RULE = ("every Recap leaf type (all widths around 32 and 64 bits x sign, string/bytes lengths, every logical type x unit x width, every built-in alias) in "
        "every chain of list / map / union / nullable / struct contexts; docs and defaults on fields and nested types; all pairs of fields, equal names at "
        "different levels, all orders; every placement of an alias definition and references to it.  The output must read back (by the real reader, itself decided by "
        "C21) as the reference mapping says, which is at least as wide; inexpressible types must be refused")
ASSUMPTIONS = ["every field has a name", "integers wider than 64 bits become decimals with the number of digits that always fit",
               "attributes other than name, doc and default are not carried over, except those of logical types", "aliases are written as Avro aliases"]


class Refuse(Exception):
    pass


def target(t):
    """Term that reading the generated schema back must give."""
    if t["k"] == "proxy" and "." in t["alias"]:
        out = {"k": "proxy", "alias": t["alias"], "x": {a: v for a, v in t.get("x", {}).items() if a in ("name", "default")}}
        return out | ({"doc": t["doc"]} if t.get("doc") else {})
    if t["k"] == "proxy":
        t = M.expand_builtin(t)
    k, lg, x = t["k"], t.get("logical"), t.get("x", {})
    keep = {a: v for a, v in x.items() if a in ("name", "default")}
    bits, signed = t.get("bits"), t.get("signed", True)
    if lg is not None:
        u = x.get("unit")
        if lg == "build.recap.Decimal" and k == "bytes" and isinstance(x.get("precision"), int):
            out = {"k": "bytes", "bytes": I64, "logical": lg, "x": {"precision": x["precision"], "scale": x.get("scale", 0)}}
        elif lg == "build.recap.UUID" and k == "string":
            out = A.clone(A.LOGICAL["uuid"])
        elif lg == "build.recap.Date" and k == "int" and signed and bits <= 32:
            out = A.clone(A.LOGICAL["date"])
        elif lg == "build.recap.Time" and k == "int" and signed and bits <= 32 and u == "millisecond":
            out = A.clone(A.LOGICAL["time-millis"])
        elif lg == "build.recap.Time" and k == "int" and signed and bits <= 64 and u == "microsecond":
            out = A.clone(A.LOGICAL["time-micros"])
        elif lg == "build.recap.Timestamp" and k == "int" and signed and bits <= 64 and u in ("millisecond", "microsecond"):
            out = A.clone(A.LOGICAL["timestamp-" + u.replace("second", "s")])
        elif lg == "build.recap.Interval" and k == "bytes" and t.get("bytes") == 12 and t.get("variable") is False and u == "millisecond":
            out = A.clone(A.LOGICAL["duration"])
        else:
            raise Refuse(lg)
    elif k in ("null", "bool"):
        out = {"k": k}
    elif k == "int":
        if bits <= 32 and signed:
            out = {"k": "int", "bits": 32}
        elif bits <= 64 and signed or bits <= 32:
            out = {"k": "int", "bits": 64}
        else:
            # every number with this many digits fits
            d = 0
            while 10 ** (d + 1) - 1 <= 2 ** (bits - signed) - 1:
                d += 1
            out = {"k": "bytes", "bytes": I64, "logical": "build.recap.Decimal", "x": {"precision": d, "scale": 0}}
    elif k == "float":
        if bits > 64:
            raise Refuse("float")
        out = {"k": "float", "bits": 32 if bits <= 32 else 64}
    elif k == "string":
        out = {"k": "string", "bytes": I64}
    elif k == "bytes":
        out = {"k": "bytes", "bytes": t["bytes"] if t.get("variable") is False else I64}
    elif k == "enum":
        out = {"k": "enum", "symbols": t["symbols"]}
    elif k == "list":
        out = {"k": "list", "v": target(t["v"])}
    elif k == "map":
        if t["key"]["k"] != "string":
            raise Refuse("map key")
        out = {"k": "map", "key": {"k": "string", "bytes": I64}, "v": target(t["v"])}
    elif k == "struct":
        out = {"k": "struct", "f": [target(f) for f in t["f"]]}
    elif k == "union":
        out = {"k": "union", "t": [target(c) for c in t["t"]]}
    out["x"] = dict(out.get("x", {})) | keep
    if t.get("doc"):
        out["doc"] = t["doc"]
    return out


def noalias(s):
    kind, params, log, al, doc, extra, kids = A.loose(s)
    return kind, params, log, al if kind == "proxy" else None, doc, extra, tuple(noalias(k) for k in kids)


def named(t, out):
    """Names that the generated schema defines (fields holding records, enums and fixed)."""
    n = t.get("x", {}).get("name")
    if n and (t["k"] in ("struct", "enum") or t["k"] == "bytes" and t.get("variable") is False and t.get("logical") in (None, "build.recap.Interval")):
        out.append(n)
    for _, c in M.children(t):
        named(c, out)
    return out


def leaves():
    out = [{"k": "null"}, {"k": "bool"}]
    for b in (1, 8, 31, 32, 33, 63, 64, 65, 127, 128, 256):
        for s in (True, False):
            out.append({"k": "int", "bits": b, "signed": s})
    for b in (16, 31, 32, 33, 63, 64, 65, 80, 128):
        out.append({"k": "float", "bits": b})
    for n in (None, 1, 36, 2 ** 31 - 1, 2 ** 31, I64):
        for k in ("string", "bytes"):
            out.append({"k": k, "bytes": n})
            if n is not None:
                out.append({"k": k, "bytes": n, "variable": False})
    for syms in (["A"], ["B", "A"], ["x", "y", "X"]):
        out.append({"k": "enum", "symbols": syms})
    for n, v in ((16, False), (32, False), (None, True), (I64, True)):
        for p, s in ((1, 0), (10, 2), (38, 38), (38, None)):
            out.append({"k": "bytes", "bytes": n, "variable": v, "logical": "build.recap.Decimal", "x": {"precision": p} | ({} if s is None else {"scale": s})})
    out.append({"k": "bytes", "bytes": 16, "variable": False, "logical": "build.recap.Decimal", "x": {}})
    for n in (36, None, 16):
        out.append({"k": "string", "bytes": n, "logical": "build.recap.UUID"})
    for lg in ("Date", "Time", "Timestamp", "Duration"):
        for b, s in ((31, True), (32, True), (33, True), (64, True), (65, True), (32, False), (64, False)):
            for u in ("day",) if lg == "Date" else ("second", "millisecond", "microsecond", "nanosecond"):
                out.append({"k": "int", "bits": b, "signed": s, "logical": "build.recap." + lg, "x": {"unit": u}})
    for n, v in ((12, False), (12, True), (16, False)):
        for u in ("millisecond", "second", "month"):
            out.append({"k": "bytes", "bytes": n, "variable": v, "logical": "build.recap.Interval", "x": {"unit": u}})
    out += [{"k": "string", "bytes": 10, "logical": "org.iso.8601.Date"}, {"k": "int", "bits": 32, "logical": "my.Own"}, {"k": "struct", "f": [], "logical": "my.Own"}]
    out += [{"k": "proxy", "alias": b} for b in sorted(M.BUILTINS)]
    out.append({"k": "struct", "f": []})
    return out


L = leaves()
CTX = ["list", "map", "null", "union", "struct", "badmap", "fixedlist"]


def wrap(c, t, k):
    if c == "list":
        return {"k": "list", "v": t}
    if c == "fixedlist":
        return {"k": "list", "v": t, "length": 3, "variable": False}
    if c == "map":
        return {"k": "map", "key": {"k": "string", "bytes": 5}, "v": t}
    if c == "badmap":
        return {"k": "map", "key": {"k": "int", "bits": 32}, "v": t}
    if c == "null":
        return {"k": "union", "t": [{"k": "null"}, t]}
    if c == "union":
        return {"k": "union", "t": [t, {"k": "list", "v": {"k": "bool"}}]}
    return {"k": "struct", "f": [with_x(t, name=f"w{k}"), with_x({"k": "bool"}, name="v")]}


def with_x(t, doc=None, **x):
    t = copy.deepcopy(t)
    t["x"] = dict(t.get("x", {})) | x
    if doc is not None:
        t["doc"] = doc
    return t


def BOUNDS(tier):
    return {"leaves": len(L), "context depth": 2 if tier == "quick" else 3, "fields": 4}


def cases(tier):
    for i in range(len(L)):
        yield {"leaf": i, "depth": 2 if tier == "quick" else 3}
    for i in range(0, len(L), 3):
        yield {"pairs": i, "step": 3 if tier == "quick" else 1}
    yield {"order": 1}
    yield {"alias": 1}


def judge(ctx, t):
    from recap.converters.avro import AvroConverter
    from recap.types import RecapTypeRegistry
    ctx.count(states=1, traces=1, transitions=1)
    obj = M.build(t, RecapTypeRegistry())
    before = M.snap(obj)
    got = observe(AvroConverter().from_recap, obj)
    if M.snap(obj) != before:
        ctx.fail("input changed", f"{t}: the type was changed by converting it")
    key = "/".join(sorted({n["k"] + (":" + n["logical"] if n.get("logical") else "") for n in nodes(t)}))
    try:
        want = target(t)
    except Refuse:
        ctx.outcome("refused")
        if got[0] != "err":
            ctx.fail("accepted:" + key, f"{t} cannot be expressed in Avro; got {got[1]}")
        return
    if got[0] != "ok":
        ctx.outcome("read")
        ctx.fail("raises:" + key, f"{t}: {got}")
        return
    text = observe(json.dumps, got[1])
    if text[0] != "ok":
        ctx.fail("json:" + key, f"{t}: not JSON: {got[1]}")
        return
    back = observe(AvroConverter().to_recap, text[1])
    ctx.count(transitions=1)
    names = named(t, [])
    if len(names) != len(set(names)):
        # the generated schema defines a name twice, which no Avro reader accepts
        ctx.outcome("name defined twice")
        dup = sorted({n for n in names if names.count(n) > 1})
        kinds = sorted({n["k"] for n in nodes(t) if n.get("x", {}).get("name") in dup})
        ctx.fail(f"name-defined-twice:{'+'.join(kinds)}:{'+'.join(dup)}", f"{t}: {text[1]} defines {dup} more than once; reading it: {back}")
        return
    ctx.outcome("read")
    if back[0] != "ok":
        ctx.fail("unreadable:" + key, f"{t}: {text[1]}: {back}")
        return
    a, b = noalias(M.snap(back[1])), noalias(M.term_snap(want))
    if a != b:
        ctx.fail("differs:" + key, f"{t}: {text[1]}\n got {a}\nwant {b}")


def nodes(t):
    yield t
    for _, c in M.children(t):
        yield from nodes(c)


def top(fields, **k):
    return {"k": "struct", "f": fields} | k


NOVAL = object()


def run_case(case, ctx):
    if "leaf" in case:
        leaf = L[case["leaf"]]
        for d in range(case["depth"] + 1):
            for chain in itertools.product(CTX, repeat=d):
                t = leaf
                for k, c in enumerate(chain):
                    t = wrap(c, t, k)
                if d <= 1:
                    for doc, df in itertools.product((None, "d"), (NOVAL, None, 0, "x")):
                        judge(ctx, top([with_x(t, doc, **({} if df is NOVAL else {"default": df}), name="a")]))
                    judge(ctx, top([with_x(t, "d", name="a"), with_x({"k": "string"}, name="b", default="q")], x={"name": "Top"}, doc="td"))
                    if chain:
                        # attributes on the nested type itself
                        judge(ctx, top([with_x(wrap(chain[0], with_x(leaf, "inner"), 0), "outer", name="a", default=None)]))
                else:
                    judge(ctx, top([with_x(t, "d", name="a", default=None)]))
    elif "pairs" in case:
        a = L[case["pairs"]]
        for j in range(0, len(L), case["step"]):
            b = L[j]
            judge(ctx, top([with_x(a, name="z"), with_x(b, "d", name="a", default=1)]))
            judge(ctx, top([with_x({"k": "struct", "f": [with_x(a, name="p"), with_x(b, name="q")]}, name="z"), with_x(b, name="r")]))
            judge(ctx, top([with_x({"k": "struct", "f": [with_x({"k": "int", "bits": 32}, name="a"), with_x(b, name="x1")]}, name="s1"),
                            with_x({"k": "struct", "f": [with_x({"k": "int", "bits": 64}, name="a"), with_x(a, name="x2")]}, name="s2"), with_x({"k": "bool"}, name="a")]))
            judge(ctx, top([with_x({"k": "union", "t": [a, b]}, name="u", default=None)]))
    elif "order" in case:
        pool = [{"k": "int", "bits": 32}, {"k": "string"}, {"k": "list", "v": {"k": "bool"}}, {"k": "enum", "symbols": ["A"]}, {"k": "bytes", "bytes": 3, "variable": False}]
        for n in range(0, 6):
            for p in itertools.permutations(range(5), n):
                judge(ctx, top([with_x(pool[i], name=f"f{i}") for i in p]))
        for p in itertools.permutations(["A", "B", "C", "a"]):
            judge(ctx, top([with_x({"k": "enum", "symbols": list(p)}, name="e")]))
        for p in itertools.permutations([{"k": "null"}, {"k": "int", "bits": 32}, {"k": "string"}, {"k": "bool"}]):
            for n in range(1, 5):
                judge(ctx, top([with_x({"k": "union", "t": list(p[:n])}, name="u")]))
        # fields of the same name holding records, enums or fixed at two places
        for nt in ({"k": "struct", "f": []}, {"k": "enum", "symbols": ["A"]}, {"k": "bytes", "bytes": 3, "variable": False}):
            judge(ctx, top([with_x({"k": "struct", "f": [with_x(nt, name="n")]}, name="a"), with_x({"k": "struct", "f": [with_x(nt, name="n")]}, name="b")]))
    else:
        aliases(ctx)


def aliases(ctx):
    """Where an alias is defined and referenced in the generated schema."""
    from recap.converters.avro import AvroConverter
    from recap.types import RecapTypeRegistry
    kinds = [{"k": "int", "bits": 32}, {"k": "string"}, {"k": "enum", "symbols": ["A"]}, {"k": "bytes", "bytes": 4, "variable": False}, {"k": "struct", "f": [with_x({"k": "bool"}, name="x")]},
             {"k": "list", "v": {"k": "bool"}}, {"k": "map", "key": {"k": "string"}, "v": {"k": "bool"}}, {"k": "union", "t": [{"k": "null"}, {"k": "bool"}]},
             {"k": "bytes", "bytes": 12, "variable": False, "logical": "build.recap.Interval", "x": {"unit": "millisecond"}}]
    places = [None, "list", "map", "null", "union", "struct"]
    for kd, p, q, al in itertools.product(kinds, places, places, ("a.B", "build.recap.X")):
        r = {"k": "proxy", "alias": al}
        for (doc, df), nested in itertools.product(itertools.product((None, "d"), (NOVAL, None, 0, "A")), (False, True)):
            x = {} if df is NOVAL else {"default": df}
            # attributes on the definition, on the reference and on the fields around them
            d = with_x(dict(kd, alias=al), doc, **x)
            rn = with_x(r, doc, **x)
            dd = with_x(wrap(p, d, 0), name="f") if p else with_x(d, name="f")
            rr = with_x(wrap(q, rn if nested else r, 1), None if nested else doc, **({} if nested else x), name="g") if q else with_x(rn, name="g")
            judge_alias(ctx, [dd, rr, with_x(r, name="h")], al, kd["k"])
    # orders: "defined where it is defined in Recap", references before and after it, inside it and several of them
    for kd in kinds:
        fs = [with_x(dict(kd, alias="a.B"), "doc", name="f"), with_x({"k": "proxy", "alias": "a.B"}, name="g"), with_x({"k": "proxy", "alias": "a.B"}, "other", name="h", default="A"),
              with_x({"k": "list", "v": {"k": "proxy", "alias": "a.B"}}, name="l")]
        for n in (2, 3, 4):
            for p in itertools.permutations(fs, n):
                if any("alias" in f and f["k"] != "proxy" for f in p):
                    judge_alias(ctx, list(p), "a.B", kd["k"])
    for inner in ({"k": "proxy", "alias": "a.B"}, {"k": "list", "v": {"k": "proxy", "alias": "a.B"}}, {"k": "union", "t": [{"k": "null"}, {"k": "proxy", "alias": "a.B"}]},
                  {"k": "map", "key": {"k": "string"}, "v": {"k": "proxy", "alias": "a.B"}}):
        for doc in (None, "d"):
            s = {"k": "struct", "f": [with_x({"k": "bool"}, name="v"), with_x(inner, doc, name="w", default=None)], "alias": "a.B"}
            judge_alias(ctx, [with_x(s, doc, name="f")], "a.B", "recursive")
            judge_alias(ctx, [with_x(s, doc, name="f"), with_x({"k": "proxy", "alias": "a.B"}, doc, name="g", default="x")], "a.B", "recursive")
            judge_alias(ctx, None, "a.B", "recursive", with_x(s, doc))
    # two aliases, one inside the other
    two = {"k": "struct", "alias": "a.Out", "f": [with_x({"k": "enum", "symbols": ["A"], "alias": "b.In"}, "in", name="e"), with_x({"k": "proxy", "alias": "b.In"}, name="e2", default="A")]}
    judge_alias(ctx, [with_x(two, "out", name="f"), with_x({"k": "proxy", "alias": "a.Out"}, name="g"), with_x({"k": "proxy", "alias": "b.In"}, "d", name="h", default="A")], "a.Out", "two")
    judge_alias(ctx, [with_x(two, "out", name="f"), with_x({"k": "proxy", "alias": "a.Out"}, name="g"), with_x({"k": "proxy", "alias": "b.In"}, "d", name="h", default="A")], "b.In", "two")
    # references that change what they refer to can't be references in Avro
    for base, over in itertools.product((8, 31, 32, 33, 64), (8, 32, 33, 64, 65)):
        judge_override(ctx, {"k": "int", "bits": base}, {"bits": over})
        judge_override(ctx, {"k": "int", "bits": base, "signed": False}, {"signed": True})
        judge_override(ctx, {"k": "int", "bits": base}, {"signed": False})
        judge_override(ctx, {"k": "int", "bits": base, "logical": "build.recap.Timestamp", "x": {"unit": "millisecond"}}, {"unit": "microsecond"})
    for over in (16, 32, 64, 65):
        judge_override(ctx, {"k": "float", "bits": 32}, {"bits": over})
    for over in ({"bytes": 5}, {"variable": True}, {"x": 1}):
        judge_override(ctx, {"k": "bytes", "bytes": 4, "variable": False}, over)
    judge_override(ctx, {"k": "bytes", "bytes": 16, "logical": "build.recap.Decimal", "x": {"precision": 5, "scale": 2}}, {"precision": 7})
    judge_override(ctx, {"k": "bytes", "bytes": 16, "logical": "build.recap.Decimal", "x": {"precision": 5, "scale": 2}}, {"scale": 1})
    judge_override(ctx, {"k": "enum", "symbols": ["A"]}, {"symbols": ["B", "A"]})
    judge_override(ctx, {"k": "string", "bytes": 4}, {"bytes": 10})


def judge_alias(ctx, fields, al, key, struct=None):
    from recap.converters.avro import AvroConverter
    from recap.types import RecapTypeRegistry
    t = struct or top(fields)
    obj = M.build(t, RecapTypeRegistry())
    before = M.snap(obj)
    ctx.count(states=1, traces=1, transitions=2)
    got = observe(AvroConverter().from_recap, obj)
    if M.snap(obj) != before:
        ctx.fail("input changed", f"{t}: the type was changed by converting it")
    if got[0] != "ok":
        ctx.fail("raises:alias:" + key, f"{t}: {got}")
        return
    ctx.outcome("alias")
    ds, rs = [], []

    def walk(o):
        if isinstance(o, dict):
            if al in o.get("aliases", []):
                ds.append(o)
            for k, v in o.items():
                if k in ("type", "items", "values"):
                    rs.extend([v] if isinstance(v, str) and v == al else [])
                    if isinstance(v, list):
                        rs.extend(x for x in v if x == al)
                if k in ("type", "items", "values", "fields"):
                    walk(v)
        elif isinstance(o, list):
            for x in o:
                walk(x)
    walk(got[1])
    want = sum(n["k"] == "proxy" and n["alias"] == al for n in nodes(t))
    if len(ds) != 1 or ds[0]["aliases"] != [al] or len(rs) != want:
        ctx.fail("alias:" + key, f"{t}: expected one definition of {al} and {want} references, got {got[1]}")
        return
    back = observe(AvroConverter().to_recap, json.dumps(got[1]))
    if back[0] != "ok":
        names = named(t, [])
        if len(names) == len(set(names)):
            ctx.fail("alias-unreadable:" + key, f"{t}: {got[1]}: {back}")
        return
    a, b = noalias(M.snap(back[1])), noalias(M.term_snap(target(t)))
    if a != b:
        ctx.fail("alias-differs:" + key, f"{t}: {got[1]}\n got {a}\nwant {b}")


def judge_override(ctx, base, over):
    """A reference with overrides must not come out narrower than what it stands for."""
    from recap.converters.avro import AvroConverter
    from recap.types import RecapTypeRegistry
    pk = {k for k in over if k in M.PARAMS[base["k"]]}
    full = dict(base) | {k: over[k] for k in pk}
    full["x"] = dict(base.get("x", {})) | {k: v for k, v in over.items() if k not in pk}
    for wrapc in (None, "list", "null"):
        ref = {"k": "proxy", "alias": "a.B", "x": dict(over)}
        d = with_x(dict(base, alias="a.B"), name="f")
        t = top([d, with_x(wrap(wrapc, ref, 0) if wrapc else ref, name="g")])
        ctx.count(states=1, traces=1, transitions=2)
        try:
            want, plain = target(full), target(base)
        except Refuse:
            continue
        got = observe(AvroConverter().from_recap, M.build(t, RecapTypeRegistry()))
        ctx.outcome("override")
        if got[0] != "ok":
            continue   # refusing is fine
        back = observe(AvroConverter().to_recap, json.dumps(got[1]))
        if back[0] != "ok":
            ctx.fail("override-unreadable", f"{t}: {got[1]}: {back}")
            continue
        g = back[1].fields[1]
        g = g.values if wrapc == "list" else g.types[1] if wrapc == "null" else g
        if type(g).__name__ == "ProxyType":
            if noalias(M.term_snap(want)) != noalias(M.term_snap(plain)):
                ctx.fail("override-dropped", f"{t}: {got[1]} refers to a.B, which is {plain}, for {want}")
        else:
            want = with_x(want, name="g") if wrapc is None else want
            if noalias(M.snap(g)) != noalias(M.term_snap(want)):
                ctx.fail("override-differs", f"{t}: {got[1]}\n got {noalias(M.snap(g))}\nwant {noalias(M.term_snap(want))}")
