"""Avro schemas -> Recap, against an independent Avro reader."""
import itertools, json
from mc import terms as M
from mc import avromodel as A
from mc.engine import observe

PID = "C21"
RULE = ("all Avro schemas of the grammar within the bounds: every leaf type (primitives, logical types, fixed, enum) in every chain of array / map / "
        "union / record contexts, in every spelling, with every combination of docs and defaults; every placement of a named definition and of a reference "
        "to it (simple or full name) under every combination of namespace spellings; all pairs of fields, equal names in different records, all orders "
        "of fields, self and mutual recursion; non-record and unsupported schemas.  References are resolved and compared with the definition")
ASSUMPTIONS = ["input is valid Avro; undefined names are outside the property", "whether fixed and decimal are flagged variable-length is not judged",
               "a field's doc takes precedence over the doc of the type it holds"]

LEAVES = [("null", None), ("boolean", True), ("int", 0), ("long", -1), ("float", 1.5), ("double", 0.0), ("bytes", "\u00ff"), ("string", "")]
LOGS = [({"type": "bytes", "logicalType": "decimal", "precision": 10, "scale": 2}), ({"type": "bytes", "logicalType": "decimal", "precision": 4}),
        {"type": "string", "logicalType": "uuid"}, {"type": "int", "logicalType": "date"}, {"type": "int", "logicalType": "time-millis"},
        {"type": "long", "logicalType": "time-micros"}, {"type": "long", "logicalType": "timestamp-millis"}, {"type": "long", "logicalType": "timestamp-micros"}]


def leafs():
    """(label, list of spellings, default values)"""
    out = []
    for n, d in LEAVES:
        out.append((n, [n, {"type": n}, {"type": {"type": n}}], d))
    for l in LOGS:
        out.append((l["logicalType"], [l, {"type": l}], 0))
    out.append(("fixed", [{"type": "fixed", "name": "F", "size": 4}, {"type": "fixed", "name": "F", "size": 1, "doc": "fd"}], "\u0000\u0000\u0000\u0000"))
    out.append(("fixed-decimal", [{"type": "fixed", "name": "F", "size": 16, "logicalType": "decimal", "precision": 38, "scale": 9}], None))
    out.append(("duration", [{"type": "fixed", "name": "F", "size": 12, "logicalType": "duration"}], None))
    out.append(("enum", [{"type": "enum", "name": "E", "symbols": ["B", "A"]}, {"type": "enum", "name": "E", "symbols": ["A"], "doc": "ed"}], "A"))
    out.append(("record", [{"type": "record", "name": "In", "fields": []},
                           {"type": "record", "name": "In", "doc": "rd", "fields": [{"name": "x", "type": "int"}, {"name": "y", "type": "string", "default": "q"}]}], {}))
    for bad in ("timestamp-nanos", "local-timestamp-millis", "nonsense"):
        out.append((bad, [{"type": "long", "logicalType": bad}], 0))
    return out


L = leafs()
CTX = ["arr", "map", "un1", "un2", "rec", "un3"]


def wrap(c, t, k):
    if c == "arr":
        return {"type": "array", "items": t}
    if c == "map":
        return {"type": "map", "values": t}
    if c == "un1":
        return ["null", t]
    if c == "un2":
        return [t, {"type": "array", "items": "boolean"}]
    if c == "un3":
        return {"type": ["null", t, {"type": "map", "values": "string"}]}
    return {"type": "record", "name": f"W{k}", "fields": [{"name": "w", "type": t}, {"name": "v", "type": "boolean"}]}


def bad_chain(chain, leaf):
    """A union directly in a union, or null twice in one union, is not Avro."""
    for a, b in zip(chain, chain[1:]):
        if a.startswith("un") and b.startswith("un"):
            return True
    if not chain:
        return False
    if leaf == "null" and chain[0] in ("un1", "un3"):
        return True
    if chain[0] == "arr" and len(chain) > 1 and chain[1] == "un2":
        return True
    if chain[0] == "map" and len(chain) > 1 and chain[1] == "un3":
        return True
    return any(a in ("arr",) and b == "un2" or a == "map" and b == "un3" for a, b in zip(chain, chain[1:]))


NSPEC = [{}, {"namespace": "x.y"}, {"namespace": ""}, {"full": "x.y"}, {"full": "q", "namespace": "z"}]


def name(spec, n):
    d = {"name": f"{spec['full']}.{n}" if "full" in spec else n}
    if "namespace" in spec:
        d["namespace"] = spec["namespace"]
    return d


def BOUNDS(tier):
    return {"leaves": len(L), "context depth": 2 if tier == "quick" else 4, "namespace spellings": len(NSPEC), "fields": 3}


def cases(tier):
    for i in range(len(L)):
        for d in range(0, (2 if tier == "quick" else 4) + 1):
            yield {"leaf": i, "depth": d}
    for i in range(len(NSPEC)):
        for j in range(len(NSPEC)):
            yield {"names": [i, j]}
    for i in range(len(L)):
        yield {"pairs": i}
    yield {"order": 1}
    yield {"recursion": 1}
    yield {"refused": 1}


def judge(ctx, key, schema, namespace=None):
    from recap.converters.avro import AvroConverter
    ctx.count(states=1, traces=1, transitions=1)
    text = json.dumps(schema)
    conv = AvroConverter()
    got = observe(conv.to_recap, text, namespace) if namespace else observe(conv.to_recap, text)
    defs = {}
    try:
        want = A.read(schema, namespace, defs)
        if want["k"] != "struct":
            raise A.Refuse("not a record")
    except A.Refuse:
        ctx.outcome("refused")
        if got[0] != "err":
            ctx.fail("accepted:" + key, f"{text} must be refused; got {M.snap(got[1])}")
        return
    ctx.outcome("read")
    if got[0] != "ok":
        ctx.fail("raises:" + key, f"{text} {namespace}: {got}")
        return
    s, w = A.loose(M.snap(got[1])), A.loose(M.term_snap(want))
    if s != w:
        ctx.fail("differs:" + key, f"{text} {namespace}\n got {s}\nwant {w}")
        return
    for o in M.walk_obj(got[1]):
        if type(o).__name__ == "ProxyType":
            ctx.count(transitions=1)
            r = observe(o.resolve)
            if r[0] != "ok":
                ctx.fail("dangling:" + key, f"{text} {namespace}: reference {o.alias} does not resolve: {r}")
                continue
            d = defs.get(o.alias)
            if d is None:
                ctx.fail("dangling:" + key, f"{text}: reference to {o.alias}, which is not defined")
                continue
            a, b = A.loose(M.snap(r[1]), True), A.loose(M.term_snap(d), True)
            if a != b:
                ctx.fail("resolves:" + key, f"{text}: {o.alias} resolves to\n {a}\nwant {b}")


def rec(fields, **k):
    return {"type": "record", "name": "Top"} | k | {"fields": fields}


NOVAL = object()


def fields_for(t, dflt):
    """Every combination of doc and default on the field."""
    for doc in (None, "", "d"):
        for d in (NOVAL, None, dflt):
            f = {"name": "a", "type": t}
            if doc is not None:
                f["doc"] = doc
            if d is not NOVAL:
                f["default"] = d
            yield f


def run_case(case, ctx):
    if "leaf" in case:
        lab, sp, dflt = L[case["leaf"]]
        for chain in itertools.product(CTX, repeat=case["depth"]):
            if bad_chain(chain, lab):
                continue
            for s in sp:
                t = s
                for k, c in enumerate(chain):
                    t = wrap(c, t, k)
                if case["depth"] <= 1:
                    for f in fields_for(t, dflt):
                        judge(ctx, f"leaf:{lab}", rec([f]))
                        judge(ctx, f"leaf:{lab}", rec([{"name": "z", "type": "string", "default": "s"}, f, {"name": "w", "type": "long"}], doc="top", namespace="n.s"))
                else:
                    judge(ctx, f"leaf:{lab}", rec([{"name": "w", "type": t, "doc": "d", "default": None}, {"name": "v", "type": ["null", "string"], "default": None}]))
    elif "names" in case:
        top, inner = (NSPEC[i] for i in case["names"])
        kinds = [{"type": "enum", "symbols": ["A", "B"]}, {"type": "fixed", "size": 3}, {"type": "fixed", "size": 16, "logicalType": "decimal", "precision": 5},
                 {"type": "record", "fields": [{"name": "x", "type": "int"}]}, {"type": "record", "fields": [{"name": "N", "type": "string"}, {"name": "Top", "type": "int"}]}]
        places = ["direct", "arr", "map", "un1", "un2"]
        for namespace in (None, "arg.ns"):
            tns = A.fullname(name(top, "Top"), namespace)[0]
            for kd, place in itertools.product(kinds, places):
                d = kd | name(inner, "N")
                ins, _ = A.fullname(d, tns)
                full = A.alias(ins, "N")
                wrapd = d if place == "direct" else wrap(place, d, 0)
                # references: full name; simple name where the namespace in effect is the definition's
                for mid in NSPEC:
                    mns = A.fullname(name(mid, "Mid"), tns)[0]
                    refs = []
                    if ins:
                        refs.append((full, full))
                    refs_top = refs + ([("N", full)] if (tns or None) == (ins or None) else [])
                    refs_mid = refs + ([("N", full)] if (mns or None) == (ins or None) else [])
                    for (rt, _), rplace in itertools.product(refs_top, places):
                        r = rt if rplace == "direct" else wrap(rplace, rt, 1)
                        judge(ctx, "names", {"type": "record"} | name(top, "Top") | {"fields": [{"name": "N", "type": wrapd}, {"name": "b", "type": r, "doc": "rd"}]}, namespace)
                        if mid:
                            break
                    for (rm, _), rplace in itertools.product(refs_mid, places):
                        r = rm if rplace == "direct" else wrap(rplace, rm, 1)
                        m = {"type": "record"} | name(mid, "Mid") | {"fields": [{"name": "a", "type": r, "default": None}, {"name": "N", "type": "int"}]}
                        judge(ctx, "names", {"type": "record"} | name(top, "Top") | {"fields": [{"name": "a", "type": wrapd}, {"name": "b", "type": m}]}, namespace)
                        # the definition sits inside Mid, the reference after it in Top
                    d2 = kd | name(inner, "N")
                    i2, _ = A.fullname(d2, mns)
                    m = {"type": "record"} | name(mid, "Mid") | {"fields": [{"name": "a", "type": d2 if place == "direct" else wrap(place, d2, 0)}]}
                    if i2:
                        judge(ctx, "names", {"type": "record"} | name(top, "Top") | {"fields": [{"name": "m", "type": m}, {"name": "b", "type": ["null", A.alias(i2, "N")]}]}, namespace)
                    if (i2 or None) == (tns or None):
                        judge(ctx, "names", {"type": "record"} | name(top, "Top") | {"fields": [{"name": "m", "type": m}, {"name": "b", "type": {"type": "array", "items": "N"}}]}, namespace)
    elif "pairs" in case:
        la, sa, da = L[case["pairs"]]
        for lb, sb, db in L:
            for x, y in itertools.product(sa, sb):
                if isinstance(x, dict) and isinstance(y, dict) and x.get("name") and x.get("name") == y.get("name"):
                    y = y | {"name": "Other"}
                judge(ctx, f"pair:{la}+{lb}", rec([{"name": "z", "type": x, "default": da}, {"name": "a", "type": y, "doc": "d"}]))
                # the same field names at two levels and in two sibling records
                inner = {"type": "record", "name": "I", "fields": [{"name": "z", "type": y}, {"name": "a", "type": "int"}]}
                judge(ctx, f"same names:{la}+{lb}", rec([{"name": "z", "type": x}, {"name": "a", "type": inner}]))
                sib = {"type": "record", "name": "S", "fields": [{"name": "z", "type": "long"}, {"name": "I", "type": "string"}]}
                judge(ctx, f"same names:{la}+{lb}", rec([{"name": "I", "type": inner}, {"name": "S", "type": sib}, {"name": "Top", "type": x}]))
    elif "order" in case:
        pool = ["int", ["null", "string"], {"type": "array", "items": "long"}, {"type": "enum", "name": "E", "symbols": ["A"]}, "bytes"]
        for n in range(0, 6):
            for p in itertools.permutations(range(5), n):
                judge(ctx, "order", rec([{"name": f"f{i}", "type": pool[i]} for i in p]))
        for syms in itertools.permutations(["A", "B", "C", "a"]):
            judge(ctx, "symbols", rec([{"name": "e", "type": {"type": "enum", "name": "E", "symbols": list(syms)}}]))
        for alts in itertools.permutations(["null", "int", "string", {"type": "array", "items": "int"}]):
            for n in range(1, 5):
                judge(ctx, "alternatives", rec([{"name": "u", "type": list(alts[:n]), "default": None}]))
    elif "recursion" in case:
        # all reference graphs over three records; a record is defined where it is first reached
        names = ["Top", "B", "C"]
        wr = ["direct", "un1", "arr", "map"]
        for ns in ("", "x.y"):
            for edges in itertools.product(range(8), repeat=3):
                for w in wr:
                    for long in (0, 1):
                        done = set()

                        def ref(n):
                            if n in done:
                                t = (ns + "." + names[n]) if (long and ns) else names[n]
                            else:
                                t = define(n)
                            return t if w == "direct" else wrap(w, t, 9)

                        def define(n):
                            done.add(n)
                            fs = [{"name": "v", "type": "int"}]
                            for m in range(3):
                                if edges[n] >> m & 1:
                                    fs.append({"name": f"to{m}", "type": ref(m), "doc": "d%d" % m})
                            d = {"type": "record", "name": names[n], "fields": fs}
                            if n == 0:
                                d["namespace"] = ns
                            return d
                        judge(ctx, "graph", define(0))
    else:
        for s in ("int", ["null", "int"], {"type": "array", "items": "int"}, {"type": "map", "values": "int"}, {"type": "enum", "name": "E", "symbols": ["A"]},
                  {"type": "fixed", "name": "F", "size": 1}, {"type": "string"}, [rec([])]):
            judge(ctx, "not a record", s)
            judge(ctx, "not a record", {"type": s} if not isinstance(s, list) else s)
        judge(ctx, "nested record", {"type": rec([])})
