"""Recap -> Protobuf: the generated text, compiled by protoc, declares what the struct says."""
import copy, itertools, os, subprocess
from mc import protomodel as P, terms as M
from mc.engine import observe

PID = "C26"
RULE = ("every leaf type and built-in alias in every chain of list / map value / map key / nullable / union contexts; every integer and float width and string size at the "
        "limits; every sequence of field shapes up to the bound (numbering); every reference graph over 3 structs and an enum, each defined where it is first used, in every field "
        "shape and alias layout (one package, nested in messages, other packages); aliases of other types, defined and referenced.  Each generated file is printed, compiled by "
        "protoc, and its descriptor compared with the mapping applied to the struct; files with a single package are also read back.  Structs that Protobuf cannot express must be refused")
ASSUMPTIONS = ["names are distinct Protobuf identifiers", "names of nested types win over names of lists and nullable fields, as the tests fix",
               "unnamed types get any name", "logical types are written as their physical type; nullability of list elements and map values is not expressed",
               "enums of a package that share a symbol, and a missing import for google.protobuf.NullValue are known findings; everything else is checked with the import added"]
CASE_TIMEOUT = 300
LIM = 2147483648
INT = {(True, 32): 5, (True, 64): 3, (False, 32): 13, (False, 64): 4}     # FieldDescriptorProto types
TYPE = {1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 8: "bool", 9: "string", 12: "bytes", 13: "uint32", 15: "sfixed32", 16: "sfixed64", 17: "sint32", 18: "sint64"}
SHAPES = ["field", "null", "list", "map", "oneof"]
LAYOUTS = [("p.q.A", "p.q.B", "p.q.C", "p.q.E"), ("p.q.A", "p.q.A.B", "p.q.A.C", "p.q.A.E"), ("p.q.A", "p.q.A.B", "p.q.A.B.C", "p.q.B.E"), ("p.q.A", "p.q.B", "p.q.B.C", "p.q.E"),
           ("p.q.A", "p.B", "p.q.C", "p.E"), ("p.q.A", "x.B", "p.q.C", "p.q.E"), ("p.q.A", "p.qq.B", "p.q.C", "p.q.E"), ("p.B.A", "p.B", "p.C", "p.E"), ("p.A", "p.E.B", "p.C", "p.E"),
           ("p.q.A", "p.q.sub.B", "p.q.sub.C", "p.q.E"), ("z.A", "z.A.B", "z.A.B.C", "z.A.B.E"),
           # a nested type with the name of another one further out
           ("p.A", "p.A.B", "p.B", "p.E"), ("p.A", "p.A.B", "p.B", "p.A.E"), ("p.B.B", "p.B", "p.B.B.B", "p.E"), ("p.A", "p.A.B", "p.A.B.A", "p.A.B.B")]


def leaves():
    return [{"k": "null"}, {"k": "bool"}, {"k": "int", "bits": 8}, {"k": "int", "bits": 32}, {"k": "int", "bits": 64}, {"k": "int", "bits": 33, "signed": False}, {"k": "int", "bits": 32, "signed": False},
            {"k": "float", "bits": 32}, {"k": "float", "bits": 64}, {"k": "string"}, {"k": "string", "bytes": 36, "variable": False}, {"k": "bytes"}, {"k": "bytes", "bytes": 16, "variable": False},
            {"k": "proxy", "alias": "int32"}, {"k": "proxy", "alias": "float16"}, {"k": "proxy", "alias": "decimal128"}, {"k": "proxy", "alias": "timestamp64"}, {"k": "proxy", "alias": "uuid"}, {"k": "proxy", "alias": "string32"},
            {"k": "enum", "alias": "p.q.E", "symbols": ["Y", "X"]}, {"k": "struct", "alias": "p.q.N", "f": []}, {"k": "struct", "alias": "p.q.N", "f": [{"k": "bool", "x": {"name": "in"}}]},
            {"k": "int", "bits": 128}, {"k": "float", "bits": 128}, {"k": "string", "bytes": LIM + 1}, {"k": "proxy", "alias": "bytes64"}, {"k": "struct", "f": []}, {"k": "enum", "symbols": ["X"]}]


L = leaves()
OPS = ["list", "map", "key", "nullf", "nulll", "one", "u1", "u2", "nlist"]


def wrap(op, t, d=0):
    s = {"k": "string", "bytes": 10 + d}
    if op == "list":
        return {"k": "list", "v": t}
    if op == "nlist":
        return {"k": "list", "v": t, "length": 3, "variable": False}
    if op == "map":
        return {"k": "map", "key": s, "v": t}
    if op == "key":
        return {"k": "map", "key": t, "v": s}
    if op == "nullf":
        return {"k": "union", "t": [{"k": "null"}, t], "x": {"default": None}}
    if op == "nulll":
        return {"k": "union", "t": [t, {"k": "null"}]}
    if op == "one":
        return {"k": "union", "t": [t]}
    return {"k": "union", "t": [t, {"k": "bool"}] if op == "u1" else [{"k": "float", "bits": 32}, {"k": "null"}, t]}


def named(t, n):
    t = dict(t)
    t["x"] = dict(t.get("x", {})) | {"name": n}
    return t


def top(*fields, alias="p.q.R"):
    return {"k": "struct", "alias": alias, "f": list(fields)}


def BOUNDS(tier):
    return {"leaves": len(L), "context depth": 2 if tier == "quick" else 3, "fields in sequences": 3 if tier == "quick" else 4, "structs in graphs": 3, "layouts": len(LAYOUTS)}


def cases(tier):
    w = tier == "thorough"
    for i in range(len(L)):
        for op in [None] + OPS:
            yield {"leaf": i, "op": op, "depth": 3 if w else 2}
    yield {"sizes": 1}
    for i in range(len(POOL)):
        yield {"seq": i, "n": 4 if w else 3}
    for a, b in itertools.product(SHAPES, repeat=2):
        for l in range(len(LAYOUTS)):
            if w or a == b or (l == 0 and a == "field"):
                yield {"graph": [a, b], "layout": l, "wide": w}
    yield {"alias": 1}
    yield {"names": 1}
    yield {"roots": 1}
    yield {"twice": 1}
    yield {"symbols": 1}


# ---------------------------------------------------------------- the documented mapping
class Refuse(Exception):
    pass


def resolve(t, defs):
    if t["k"] != "proxy":
        return t
    if t["alias"] in M.BUILTINS:
        return M.expand_builtin(t)
    d = copy.deepcopy(defs[t["alias"]][0])
    if d["k"] in ("struct", "enum"):
        return t
    d["x"] = {k: v for k, v in d.get("x", {}).items() if k != "name"} | t.get("x", {})
    return d


def ptype(t):
    k = t["k"]
    if k == "null":
        return "google.protobuf.NullValue"
    if k == "bool":
        return "bool"
    if k == "int":
        if t["bits"] > 64:
            raise Refuse
        return ("" if t.get("signed", True) else "u") + ("int32" if t["bits"] <= 32 else "int64")
    if k == "float":
        if t["bits"] > 64:
            raise Refuse
        return "float" if t["bits"] <= 32 else "double"
    if k in ("string", "bytes"):
        if t.get("bytes") is not None and t["bytes"] > LIM:
            raise Refuse
        return k
    if not t.get("alias"):
        raise Refuse
    return t["alias"]


def name(t, outer):
    return t.get("x", {}).get("name", outer)


def field(t, outer, defs):
    """(shape, name, ...)"""
    t = resolve(t, defs)
    n = name(t, outer)
    if t["k"] == "list":
        f = field(t["v"], n, defs)
        if f[0] not in ("single", "optional"):
            raise Refuse
        return ("repeated", f[1], f[2])
    if t["k"] == "map":
        k, v = field(t["key"], None, defs), field(t["v"], None, defs)
        if k[0] not in ("single", "optional") or v[0] not in ("single", "optional") or k[2] not in ("bool", "int32", "int64", "uint32", "uint64", "string"):
            raise Refuse
        return ("map", n, k[2], v[2])
    if t["k"] == "union":
        nn = [c for c in t["t"] if resolve(c, defs)["k"] != "null"]
        if not nn:
            return ("single", n, "google.protobuf.NullValue")
        if len(nn) == 1:
            f = field(nn[0], n, defs)
            if f[0] == "oneof":
                raise Refuse
            return ("optional",) + f[1:] if f[0] == "single" else f
        ms = [field(c, None, defs) for c in nn]
        if any(f[0] not in ("single", "optional") for f in ms):
            raise Refuse
        return ("oneof", n, [f[1:] for f in ms])
    return ("single", n, ptype(t))


def expected(t, ds):
    """Declarations: full name -> list of fields or of symbols; raises Refuse."""
    ms, es, all_ = {}, {}, {}

    def go(x):
        if x["k"] in ("struct", "enum"):
            a = x.get("alias")
            if not a or "." not in a:
                raise Refuse
            d = [field(f, None, ds) for f in x["f"]] if x["k"] == "struct" else list(x["symbols"])
            if all_.setdefault(a, (x["k"], d)) != (x["k"], d):
                raise Refuse
            (ms if x["k"] == "struct" else es)[a] = d
        for _, c in M.children(x):
            go(c)
    go(t)
    al = list(ms) + list(es)
    pk = min((a.rsplit(".", 1)[0] for a in al), key=len)
    for a in al:
        if not a.startswith(pk + "."):
            raise Refuse
        parts = a[len(pk) + 1:].split(".")
        for i in range(1, len(parts)):
            if f"{pk}." + ".".join(parts[:i]) not in ms:
                raise Refuse
    return pk, ms, es


# ---------------------------------------------------------------- what the generated file declares
def compile_(s):
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"c26-{os.getpid()}")
    with open(base + ".proto", "w") as f:
        f.write(s)
    r = subprocess.run(["protoc", "-I", os.path.dirname(base), "--descriptor_set_out=" + base + ".bin", base + ".proto"], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    from google.protobuf import descriptor_pb2
    d = descriptor_pb2.FileDescriptorSet()
    with open(base + ".bin", "rb") as f:
        d.ParseFromString(f.read())
    return d.file[0], None


def declared(fd):
    """The same form from the compiled descriptor, and the order of top-level messages."""
    ms, es = {}, {}

    def tname(f):
        return f.type_name[1:] if f.type in (11, 14) else TYPE[f.type]

    def go(pre, m):
        full = f"{pre}.{m.name}"
        entries = {f".{full}.{n.name}": n for n in m.nested_type if n.options.map_entry}
        out = []
        for f in m.field:
            if f.type == 11 and f.type_name in entries:
                e = {x.name: x for x in entries[f.type_name].field}
                out.append(("map", f.name, tname(e["key"]), tname(e["value"])))
            elif f.HasField("oneof_index") and not f.proto3_optional:
                o = m.oneof_decl[f.oneof_index].name
                if not (out and out[-1][0] == "oneof" and out[-1][1] == o):
                    out.append(("oneof", o, []))
                out[-1][2].append((f.name, tname(f)))
            else:
                out.append(("repeated" if f.label == 3 else "optional" if f.proto3_optional else "single", f.name, tname(f)))
        ms[full] = out
        for n in m.nested_type:
            if not n.options.map_entry:
                go(full, n)
        for n in m.enum_type:
            es[f"{full}.{n.name}"] = [v.name for v in n.value]
    for m in fd.message_type:
        go(fd.package, m)
    for n in fd.enum_type:
        es[f"{fd.package}.{n.name}"] = [v.name for v in n.value]
    return ms, es


def same_field(a, b):
    if a[0] != b[0] or (a[1] is not None and a[1] != b[1]):
        return False
    if a[0] == "oneof":
        return len(a[2]) == len(b[2]) and all((x[0] is None or x[0] == y[0]) and x[1] == y[1] for x, y in zip(a[2], b[2]))
    return a[2:] == b[2:]


def model(fd, ms, es):
    """The compiled file as a protomodel file."""
    els = [{"e": e.rsplit(".", 1)[1], "syms": s} for e, s in es.items()]
    d = lambda t: t if t in P.SCALAR or t in P.WKT else "." + t
    for m, fs in ms.items():
        out = []
        for f in fs:
            if f[0] == "oneof":
                out.append({"oneof": f[1], "fs": [(n, d(t)) for n, t in f[2]]})
            elif f[0] == "map":
                out.append({"map": f[1], "k": f[2], "t": d(f[3])})
            else:
                out.append({"f": f[1], "t": d(f[2]), "c": {"single": None}.get(f[0], f[0])})
        els.append({"m": m.rsplit(".", 1)[1], "els": out})
    return {"package": fd.package, "els": els}


def judge(ctx, t, key, dotted=True):
    from proto_schema_parser.generator import Generator
    from recap.converters.protobuf import ProtobufConverter
    from recap.types import RecapTypeRegistry, from_dict
    ctx.count(states=1, traces=1, transitions=1)
    try:
        o = from_dict(M.long_dict(t)) if dotted else M.build(t, RecapTypeRegistry())
    except Exception as e:
        raise AssertionError(f"harness: {t}: {e}")
    got = observe(lambda: Generator().generate(ProtobufConverter().from_recap(o)))
    ds = M.defs(t)
    try:
        pk, ms, es = expected(t, ds)
    except Refuse:
        ctx.outcome("refused")
        if got[0] != "err":
            ctx.fail("accepted:" + key, f"{t}: cannot be expressed, but gave\n{got[1]}")
        return
    if got[0] != "ok":
        ctx.fail("raises:" + key, f"{t}: {got}")
        return
    ctx.outcome("converted")
    s = got[1]
    fd, err = compile_(s)
    if fd is None and "google.protobuf.NullValue" in s:
        fd, err2 = compile_(s.replace("package ", 'import "google/protobuf/struct.proto";\npackage ', 1))
        if fd is not None:
            ctx.fail("invalid:NullValue-import", f"{t}:\n{s}\n{err}")
    if fd is None:
        ctx.fail("invalid:" + key, f"{t}: protoc rejects\n{s}\n{err}")
        return
    gm, ge = declared(fd)
    if set(gm) != set(ms) or ge != es:
        ctx.fail("declarations:" + key, f"{t}: declares {gm} {ge}, expected {ms} {es}")
        return
    for a, fs in ms.items():
        if len(fs) != len(gm[a]) or not all(map(same_field, fs, gm[a])):
            ctx.fail("fields:" + key, f"{t}: {a} has {gm[a]}, expected {fs}")
            return
    if any(a.rsplit(".", 1)[0] != pk for a in list(ms) + list(es)) or any(f[0] == "map" and f[2] == "bool" for fs in ms.values() for f in fs):
        return
    ctx.count(transitions=1)
    ctx.outcome("read back")
    back = observe(ProtobufConverter().to_recap, s)
    if back[0] != "ok":
        ctx.fail("unreadable:" + key, f"{t}:\n{s}\n{back}")
        return
    try:
        r, decl = P.root(model(fd, gm, ge), "_root")
        P.want("root", back[1].alias, t["alias"])
        P.match(back[1], r, decl, 3)
    except P.Differs as e:
        ctx.fail("readback:" + key, f"{t}:\n{s}\n{e}")


POOL = [{"k": "int", "bits": 32}, {"k": "union", "t": [{"k": "null"}, {"k": "string"}], "x": {"default": None}}, {"k": "list", "v": {"k": "bool"}}, {"k": "map", "key": {"k": "string"}, "v": {"k": "int", "bits": 64}},
        {"k": "union", "t": [{"k": "int", "bits": 32}, {"k": "string"}]}, {"k": "union", "t": [{"k": "null"}, {"k": "bool"}, {"k": "string"}, {"k": "bytes"}], "x": {"default": None}},
        {"k": "union", "t": [{"k": "null"}, {"k": "list", "v": {"k": "string"}}]}, {"k": "struct", "f": [{"k": "union", "t": [{"k": "bool"}, {"k": "string"}], "x": {"name": "iu"}}, {"k": "int", "bits": 8, "x": {"name": "ii"}}], "al": "S"},
        {"k": "enum", "symbols": ["A"], "al": "E"}]


def renamed(t, i):
    t = copy.deepcopy(t)
    if "al" in t:
        t["alias"] = f"p.q.{t.pop('al')}{i}"
    if "symbols" in t:
        t["symbols"] = [f"{s}{i}" for s in t["symbols"]]
    return t


def members(t, i):
    """Give the alternatives of a union names of their own."""
    t = copy.deepcopy(t)
    if t["k"] == "union" and sum(c["k"] != "null" for c in t["t"]) > 1:
        t["t"] = [named(c, f"m{i}_{j}") for j, c in enumerate(t["t"])]
    return t


def run_case(case, ctx):
    if "leaf" in case:
        l, op = L[case["leaf"]], case["op"]
        chains = [()] if op is None else [(op,) + c for n in range(case["depth"]) for c in itertools.product(OPS, repeat=n)]
        for c in chains:
            t = l
            for d, o in enumerate(c):
                t = wrap(o, t, d)
            judge(ctx, top(named(t, "fx")), f"chain:{l['k']}")
            judge(ctx, top({"k": "bool", "x": {"name": "g"}}, named(t, "fx"), {"k": "bool", "x": {"name": "h"}}), f"chain:{l['k']}")
            if c == ():
                judge(ctx, top(t), f"unnamed:{l['k']}")
    elif "sizes" in case:
        for b in range(1, 130):
            for s in (True, False):
                judge(ctx, top({"k": "int", "bits": b, "signed": s, "x": {"name": "f"}}), "bits")
            judge(ctx, top({"k": "float", "bits": b, "x": {"name": "f"}}), "bits")
        for n in (None, 1, 255, 65535, LIM - 1, LIM, LIM + 1, M.I64):
            for v in (True, False):
                for k in ("string", "bytes"):
                    if n is None and not v:
                        continue
                    judge(ctx, top({"k": k, "bytes": n, "variable": v, "x": {"name": "f"}}), "size")
        for a in M.BUILTINS:
            for op in [None] + OPS:
                t = {"k": "proxy", "alias": a}
                judge(ctx, top(named(wrap(op, t) if op else t, "f")), f"builtin:{a}")
    elif "seq" in case:
        for n in range(1, case["n"] + 1):
            for r in itertools.product(POOL, repeat=n - 1):
                fs = [named(members(renamed(t, i), i), f"f{i}") for i, t in enumerate((POOL[case["seq"]],) + r)]
                judge(ctx, top(*fs), "sequence")
                if n < case["n"]:
                    judge(ctx, top(*[renamed(t, i) if i == n - 1 else named(renamed(t, i), f"n{i}") for i, t in enumerate((POOL[case["seq"]],) + r)]), "sequence")
    elif "graph" in case:
        graph(ctx, case)
    elif "alias" in case:
        aliases(ctx)
    elif "names" in case:
        names(ctx)
    elif "twice" in case:
        twice(ctx)
    elif "symbols" in case:
        for a, b in itertools.product(("p.q.E", "p.q.R.E"), ("p.q.F", "p.q.R.F")):
            for x, y in itertools.product((["A"], ["A", "B"], ["B", "A"], ["C"]), repeat=2):
                same = a.rsplit(".", 1)[0] == b.rsplit(".", 1)[0] and set(x) & set(y)
                judge(ctx, top({"k": "enum", "alias": a, "symbols": x, "x": {"name": "f"}}, {"k": "enum", "alias": b, "symbols": y, "x": {"name": "g"}}), "enums-share-a-symbol" if same else "symbols")
    else:
        roots(ctx)


def twice(ctx):
    """The same alias defined in several places, equal or not (types built in Python need no description)."""
    b, i = {"k": "bool", "x": {"name": "b"}}, {"k": "int", "bits": 32, "x": {"name": "b"}}
    ds = [{"k": "struct", "f": []}, {"k": "struct", "f": [b]}, {"k": "struct", "f": [i]}, {"k": "struct", "f": [b, {"k": "int", "bits": 32, "x": {"name": "c"}}]}, {"k": "enum", "symbols": ["A"]}, {"k": "enum", "symbols": ["A", "B"]},
          {"k": "struct", "f": [{"k": "struct", "alias": "p.q.In", "f": [b], "x": {"name": "c"}}]}, {"k": "struct", "f": [{"k": "struct", "alias": "p.q.In", "f": [i], "x": {"name": "c"}}]}]
    for x, y in itertools.product(ds, repeat=2):
        for s1, s2 in itertools.product(SHAPES, repeat=2):
            for al in ("p.q.X", "p.q.R.X"):
                judge(ctx, top(shaped(s1, dict(x, alias=al), "f"), shaped(s2, dict(y, alias=al), "g")), "twice", False)
                judge(ctx, top(shaped(s1, dict(x, alias=al), "f"), {"k": "bool", "x": {"name": "m"}}, shaped(s2, dict(y, alias=al), "g"), shaped("list", dict(x, alias=al), "h")), "twice", False)


def shaped(sh, t, n):
    if sh == "field":
        return named(t, n)
    if sh == "oneof":
        return {"k": "union", "t": [named(t, n + "x"), {"k": "string", "x": {"name": n + "y"}}], "x": {"name": n}}
    return named(wrap({"null": "nullf"}.get(sh, sh), t), n)


def graph(ctx, case):
    sa, sb = case["graph"]
    al = dict(zip("ABCE", LAYOUTS[case["layout"]]))
    slots = "iABCE"
    for a, b, c, d in itertools.product(slots, slots, slots, slots if case["wide"] else "iAC"):
        for e in (slots if case["wide"] else slots[(slots.index(a) + slots.index(c)) % 5],):
            todo = {"A": (a, b), "B": (c, d), "C": (e,)}
            seen = set()

            def make(x):
                if x == "i":
                    return {"k": "int", "bits": 32}
                if x in seen:
                    return {"k": "proxy", "alias": al[x]}
                seen.add(x)
                if x == "E":
                    return {"k": "enum", "alias": al[x], "symbols": ["X", "Y"]}
                return {"k": "struct", "alias": al[x], "f": [shaped(s, make(y), n) for s, y, n in zip((sa, sb), todo[x], ("pf", "qf"))]}
            judge(ctx, make("A"), f"graph:{sa}/{sb}:{case['layout']}")


def aliases(ctx):
    """Aliases of types that Protobuf does not declare."""
    kinds = [{"k": "int", "bits": 32}, {"k": "string"}, {"k": "list", "v": {"k": "bool"}}, {"k": "map", "key": {"k": "string"}, "v": {"k": "bool"}}, {"k": "union", "t": [{"k": "null"}, {"k": "bool"}]},
             {"k": "union", "t": [{"k": "bool", "x": {"name": "m1"}}, {"k": "string", "x": {"name": "m2"}}]}, {"k": "list", "v": {"k": "struct", "alias": "p.q.S", "f": [{"k": "bool", "x": {"name": "sb"}}]}},
             {"k": "enum", "symbols": ["Q"]}, {"k": "struct", "f": [{"k": "bool", "x": {"name": "sb"}}]}]
    for k in kinds:
        d = dict(k, alias="p.q.Al")
        ref = {"k": "proxy", "alias": "p.q.Al"}
        for w1 in [None] + OPS:
            for w2 in [None] + OPS:
                if k["k"] == "union" and len(k["t"]) == 2 and "x" in k["t"][0] and w1 is None and w2 is None:
                    judge(ctx, top(named(d, "f")), "alias")     # a second oneof would repeat the names of its members
                    continue
                judge(ctx, top(named(wrap(w1, d) if w1 else d, "f"), named(wrap(w2, ref) if w2 else ref, "g")), f"alias:{k['k']}")


def names(ctx):
    """Names on lists, nullable fields and what is in them; all subsets."""
    for op in ("list", "nullf", "nulll", "one", "map", "u1", "u2"):
        for op2 in (None, "list", "nullf", "u1"):
            for bits in itertools.product((0, 1), repeat=3):
                leaf = {"k": "int", "bits": 32}
                if bits[0]:
                    leaf = named(leaf, "in")
                t = leaf
                if op2:
                    t = wrap(op2, t)
                    if bits[1]:
                        t = named(t, "mid")
                t = wrap(op, t)
                if bits[2]:
                    t = named(t, "out")
                judge(ctx, top(t), "names")
                judge(ctx, top(t, {"k": "bool", "x": {"name": "z"}}), "names")


def roots(ctx):
    for a in (None, "A", "a.A", "a.b.c.D"):
        judge(ctx, top({"k": "bool", "x": {"name": "f"}}, alias=a) if a else {"k": "struct", "f": []}, f"root:{a}", False)
        judge(ctx, top(alias=a), f"root:{a}", False)
        for e in ("E", "a.E", "a.b.c.E"):
            judge(ctx, top({"k": "enum", "alias": e, "symbols": ["X", "Y"], "x": {"name": "f"}}, alias=a), "root", False)
            judge(ctx, top({"k": "struct", "alias": e, "f": [], "x": {"name": "f"}}, alias=a), "root", False)
