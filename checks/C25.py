"""Protobuf -> Recap, against an independent reading of the file."""
import itertools
from mc import protomodel as P
from mc.engine import observe

PID = "C25"
RULE = ("all Protobuf files of the grammar within the bounds: every scalar and well-known type in every field shape (no label, optional, required, repeated, map value, "
        "oneof member), every map key type, under every package; all pairs of fields; reference graphs over 3 messages and an enum (2 fields each) in every field "
        "shape, order of declaration, nesting and spelling of references (all combinations in the thorough run); files with elements that have no effect; histories of up to 3 files read by one converter; files "
        "that must be refused.  Each result is compared by unfolding references, and so is what reading its own description gives")
ASSUMPTIONS = ["nested messages and enums are known by their simple name in the package, as the tests fix; names qualified by an enclosing message are not supported",
               "bool map keys are not judged", "groups are not supported", "unused messages are not part of the result"]
CASE_TIMEOUT = 300
TYPES = list(P.SCALAR) + list(P.WKT)
PKG = [None, "a", "foo.bar.baz"]
KEYS = [k for k in P.SCALAR if k != "bool"]


def shapes(n, t):
    yield {"f": n, "t": t, "c": None}
    yield {"f": n, "t": t, "c": "optional"}
    yield {"f": n, "t": t, "c": "required"}
    yield {"f": n, "t": t, "c": "repeated"}
    yield {"map": n, "k": "string", "t": t}
    yield {"oneof": n, "fs": [(n + "1", t), (n + "2", "bool")]}
    yield {"oneof": n, "fs": [(n + "0", "int32"), (n + "1", t)]}


def BOUNDS(tier):
    return {"types": len(TYPES), "shapes": 7, "messages": 3, "fields per message in graphs": 2, "files per history": 3, "unfolding depth": 4}


SH = ["", "optional", "required", "repeated", "map", "oneof"]


def cases(tier):
    for p in range(len(PKG)):
        yield {"types": p}
    for i in range(len(TYPES)):
        yield {"pairs": i, "wide": tier == "thorough"}
    for a, b in itertools.product(SH, repeat=2):
        for nest in range(4):
            for q in range(4):
                if tier == "thorough" or (nest, q) in ([(0, 0), (0, 2), (1, 1), (2, 3), (3, 0)] if a == b else [(0, 0), (3, 3)] if a == "" else []):
                    yield {"graph": [a, b], "nest": nest, "spell": q, "wide": tier == "thorough"}
    yield {"extras": 1}
    yield {"histories": 1}
    yield {"refuse": 1}


def judge(ctx, f, ns=None, key="", conv=None, prior=None):
    from recap.converters.protobuf import ProtobufConverter
    from recap.types import from_dict, to_dict
    ctx.count(states=1, traces=1, transitions=1)
    s = P.text(f)
    fresh = conv is None
    if fresh:
        conv = ProtobufConverter(ns) if ns else ProtobufConverter()
    got = observe(conv.to_recap, s)
    try:
        r, decl = P.root(f, ns or "_root", prior)
    except P.Refuse as e:
        ctx.outcome("refused")
        if got[0] != "err":
            ctx.fail("accepted:" + key, f"{s}: must be refused ({e}); got {got[1]}")
        return None
    if got[0] != "ok":
        ctx.fail("raises:" + key, f"{s}: {got}")
        return None
    ctx.outcome("read")
    for what in ("read", "described"):
        o = got[1]
        if what == "described":
            ctx.count(transitions=1)
            back = observe(lambda: from_dict(to_dict(got[1])))
            if back[0] != "ok":
                ctx.fail("description:" + key, f"{s}: {to_dict(got[1])}: {back}")
                return None
            o = back[1]
        try:
            P.match(o, r, decl, 3)
        except P.Differs as e:
            ctx.fail(f"differs:{what}:{key}", f"{s} ({what}): {e}")
        except Exception as e:
            ctx.fail(f"unresolved:{what}:{key}", f"{s} ({what}): {type(e).__name__} {e}")
    return decl


def msg(n, *els):
    return {"m": n, "els": list(els)}


def fld(n, t, c=None):
    return {"f": n, "t": t, "c": c}


def shaped(sh, n, t):
    if sh == "map":
        return {"map": n, "k": "int64", "t": t}
    if sh == "oneof":
        return {"oneof": n, "fs": [(n + "x", t), (n + "y", "string")]}
    return fld(n, t, sh or None)


def run_case(case, ctx):
    if "types" in case:
        pk = PKG[case["types"]]
        for t in TYPES:
            for s in shapes("f", t):
                for syn in ("proto3", "proto2", None):
                    for ns, late in ((None, False), ("my.ns", False), (None, True)):
                        judge(ctx, {"syntax": syn, "package": pk, "late": late, "els": [msg("T", s)]}, ns, key=f"type:{t}")
                judge(ctx, {"syntax": "proto3", "package": pk, "els": [msg("T", s, fld("g", "int32"))]}, key=f"type:{t}")
            for k in KEYS:
                judge(ctx, {"syntax": "proto3", "package": pk, "els": [msg("T", {"map": "m", "k": k, "t": t})]}, key=f"map:{k}")
    elif "pairs" in case:
        a = TYPES[case["pairs"]]
        for b in TYPES:
            for x, y in itertools.product(shapes("f", a), list(shapes("g", b))[:: 1 if case["wide"] else 3]):
                judge(ctx, {"syntax": "proto3", "els": [msg("T", x, y)]}, key="pair")
    elif "graph" in case:
        graph(ctx, case)
    elif "extras" in case:
        extras(ctx)
    elif "histories" in case:
        histories(ctx)
    else:
        refuse(ctx)


def spelled(t, q, pk):
    if t == "int32" or q == 0 or (q == 3 and t != "M1"):
        return t
    return f"{pk}.{t}" if q in (1, 3) else f".{pk}.{t}"


def graph(ctx, case):
    """M0, M1, M2 with two fields each.  nest: 0 flat, 1 M1 in M0, 2 M1 and M2 in M0, 3 M2 in M1 in M0; the enum flat or nested."""
    (sa, sb), nest, q = case["graph"], case["nest"], case["spell"]
    pk = "p.q" if q else None
    slots = ["int32", "M0", "M1", "M2", "E"]
    for a, b, c, d in itertools.product(slots, slots, slots, slots if case["wide"] else ("int32", "M0", "M2")):
        for e in (slots if case["wide"] else (slots[(slots.index(a) + slots.index(c)) % 5],)):
            ms = {}
            for i, (t, u) in enumerate(((a, b), (c, d), (e, "int32"))):
                ms[i] = msg(f"M{i}", shaped(sa, "p", spelled(t, q, pk or "_root")), shaped(sb if i != 2 else "", "q", spelled(u, q, pk or "_root")))
            en = {"e": "E", "syms": ["X", "Y"]}
            if nest == 0:
                for els in ([ms[0], ms[1], ms[2], en], [en, ms[2], ms[0], ms[1]]):
                    judge(ctx, {"syntax": "proto3", "package": pk, "els": els}, key=f"graph:{sa}/{sb}")
                continue
            if nest == 1:
                ms[0]["els"].insert(1, ms[1])
                els = [ms[0], ms[2], en]
            elif nest == 2:
                ms[0]["els"] += [ms[1], ms[2], en]
                els = [ms[0]]
            else:
                ms[1]["els"].insert(0, ms[2])
                ms[1]["els"].insert(0, en)
                ms[0]["els"].append(ms[1])
                els = [ms[0]]
            judge(ctx, {"syntax": "proto3", "package": pk, "els": els}, key=f"graph:{sa}/{sb}:{nest}")


def extras(ctx):
    """Elements without effect, symbol orders, field orders."""
    raw = ["// comment", "/* message X { } */", ";"]
    top_raw = raw + ['import "google/protobuf/timestamp.proto";', 'option java_package = "x";', "service S { rpc Get (M) returns (M); }"]
    in_raw = raw + ["reserved 100 to 200;", 'reserved "old";', "option deprecated = true;"]
    base = msg("M", fld("a", "int32"), fld("b", "string", "repeated"))
    for r in top_raw:
        for i in range(2):
            els = [base]
            els.insert(i, {"raw": r})
            judge(ctx, {"syntax": "proto3", "els": els}, key="extra:" + r)
    for r in in_raw:
        for i in range(3):
            m = msg("M", *base["els"])
            m["els"].insert(i, {"raw": r})
            judge(ctx, {"syntax": "proto3", "els": [m]}, key="extra:" + r)
    for opt in ('[deprecated = true]', '[json_name = "x"]', '[default = 1]'):
        m = msg("M", fld("a", "int32"))
        f = {"syntax": "proto2", "els": [m]}
        t = P.text(f).replace("= 1;", f"= 1 {opt};")
        judge(ctx, {"syntax": "proto2", "els": [{"raw": "// "}, m]}, key="extra")
        from recap.converters.protobuf import ProtobufConverter
        got = observe(ProtobufConverter().to_recap, t)
        ctx.count(states=1, traces=1, transitions=1)
        try:
            P.match(got[1], "_root.M", P.declared(f, "_root"))
        except Exception as e:
            ctx.fail("differs:option", f"{t}: {got} {e}")
    # numbers have no effect on symbols and fields, whatever their order
    for u in ([0, 1, 2], [0, 2, 1], [0, -1, 1], [5, 0, 3], [-1, -2, -3], [0, 0, 1], [2147483647, -2147483648, 0], [0, 1, 1], [1, 2, 3], [0, 100, 10]):
        for rep in (fld("e", "E"), fld("e", "E", "repeated"), {"map": "e", "k": "string", "t": "E"}, {"oneof": "o", "fs": [("e", "E"), ("i", "int32")]}):
            for nested in (0, 1):
                e = {"e": "E", "syms": ["A", "B", "C"], "nums": u, "stmts": [(0, "option allow_alias = true;")] if len(set(u)) < 3 else []}
                judge(ctx, {"syntax": "proto2", "els": [msg("M", rep, e)] if nested else [msg("M", rep), e]}, key="numbers")
    for r in ("reserved 7, 9 to 11;", 'reserved "OLD";', "// comment", ";", "option deprecated = true;"):
        for at in range(4):
            judge(ctx, {"syntax": "proto3", "els": [msg("M", fld("e", "E")), {"e": "E", "syms": ["A", "B", "C"], "stmts": [(at, r)]}]}, key="extra:enum:" + r)
    for u in itertools.permutations([1, 2, 536870911, 15]):
        fs = [fld("a", "int32") | {"n": u[0]}, fld("b", "string", "repeated") | {"n": u[1]}, {"map": "c", "k": "string", "t": "bool", "n": u[2]}, fld("d", "bytes", "optional") | {"n": u[3]}]
        judge(ctx, {"syntax": "proto3", "els": [msg("M", *fs)]}, key="numbers")
    pool = [fld("a", "int32"), fld("b", "string"), {"map": "c", "k": "string", "t": "bool"}, {"oneof": "d", "fs": [("d1", "bool"), ("d2", "E"), ("d3", "N")]}, fld("e", "E", "repeated")]
    for n in range(6):
        for p in itertools.permutations(pool, n):
            judge(ctx, {"syntax": "proto3", "els": [msg("M", *p), {"e": "E", "syms": ["A", "B"]}, msg("N")]}, key="order")
    for p in itertools.permutations(["A", "B", "C", "a"]):
        judge(ctx, {"syntax": "proto3", "els": [msg("M", fld("e", "E")), {"e": "E", "syms": list(p)}]}, key="symbols")
    for n in range(1, 5):
        for p in itertools.product(["int32", "E", "M", "google.protobuf.NullValue"], repeat=n):
            judge(ctx, {"syntax": "proto3", "els": [msg("M", {"oneof": "o", "fs": [(f"x{i}", t) for i, t in enumerate(p)]}), {"e": "E", "syms": ["A"]}]}, key="oneof")


def histories(ctx):
    """One converter, several files: each is read in its own package; earlier declarations can be referenced by full name."""
    from recap.converters.protobuf import ProtobufConverter
    for ns in (None, "my.ns"):
        for pk in itertools.product([None, "a", "b.c", "fail", "broken"], repeat=3):
            conv = ProtobufConverter(ns) if ns else ProtobufConverter()
            prior, last = {}, None
            for i, p in enumerate(pk):
                if p == "fail":     # a package without a message
                    judge(ctx, {"syntax": "proto3", "package": "zz", "els": [{"e": f"Z{i}", "syms": ["A"]}]}, ns, key="history", conv=conv, prior=prior)
                    prior[f"zz.Z{i}"] = ({"e": f"Z{i}", "syms": ["A"]}, "zz")
                    continue
                if p == "broken":   # refers to nothing
                    f = {"syntax": "proto3", "package": "yy", "els": [msg(f"Y{i}", fld("x", "Nope"))]}
                    judge(ctx, f, ns, key="history", conv=conv, prior=prior)
                    prior.update(P.declared(f, ns or "_root"))
                    continue
                m = msg(f"M{i}", fld("x", f"N{i}"), *([fld("y", last)] if last else []))
                f = {"syntax": "proto3", "package": p, "els": [m, msg(f"N{i}", fld("v", "int32"))]}
                d = judge(ctx, f, ns, key="history", conv=conv, prior=prior)
                if d is None:
                    break
                prior = d
                last = f"{p or ns or '_root'}.M{i}"


def refuse(ctx):
    for f in ([], [{"e": "E", "syms": ["A"]}], [msg("M", fld("x", "Nope"))], [msg("M", fld("x", "Nope", "repeated"))], [msg("M", {"map": "x", "k": "string", "t": "Nope"})],
              [msg("M", {"oneof": "o", "fs": [("x", "Nope")]})], [msg("M", fld("x", "other.pkg.T"))], [msg("M"), msg("M")], [msg("M"), {"e": "M", "syms": ["A"]}],
              [msg("M", fld("x", "N")), msg("N", fld("y", "Nope"))], [msg("M", {"map": "x", "k": "float", "t": "int32"})], [msg("M", {"map": "x", "k": "bytes", "t": "int32"})],
              [msg("M", {"map": "x", "k": "E", "t": "int32"}), {"e": "E", "syms": ["A"]}], [msg("M", {"map": "x", "k": "M", "t": "int32"})]):
        for pk in (None, "a.b"):
            judge(ctx, {"syntax": "proto3", "package": pk, "els": f}, key="refuse")
