"""Reference model of Recap types: plain dict terms, their exhaustive enumeration, direct
construction, and structural snapshots.  Nothing here calls the serialisation code of /repo.

A term is a dict:
  {"k": kind, <params>, "logical":, "alias":, "doc":, "x": {extra attrs}, children}
kinds: null bool int(bits, signed) float(bits) string(bytes, variable) bytes(bytes, variable)
       list(v, length, variable) map(key, v) struct(f=[...]) enum(symbols) union(t=[...]) proxy(alias)
Absent optional params mean the documented default.
"""
import itertools

DEFAULTS = {
    "null": {}, "bool": {}, "int": {"signed": True}, "float": {},
    "string": {"bytes": None, "variable": True}, "bytes": {"bytes": None, "variable": True},
    "list": {"length": None, "variable": True}, "map": {}, "struct": {}, "enum": {}, "union": {},
    "proxy": {},
}
PARAMS = {
    "null": [], "bool": [], "int": ["bits", "signed"], "float": ["bits"],
    "string": ["bytes", "variable"], "bytes": ["bytes", "variable"],
    "list": ["length", "variable"], "map": [], "struct": [], "enum": ["symbols"], "union": [],
    "proxy": [],
}
CLASS = {"null": "NullType", "bool": "BoolType", "int": "IntType", "float": "FloatType",
         "string": "StringType", "bytes": "BytesType", "list": "ListType", "map": "MapType",
         "struct": "StructType", "enum": "EnumType", "union": "UnionType", "proxy": "ProxyType"}
KIND = {v: k for k, v in CLASS.items()}

I64 = 9_223_372_036_854_775_807
# Documented built-in aliases (recap.build/specs, "Built-in aliases"), transcribed independently.
BUILTINS = {
    "int8": {"k": "int", "bits": 8}, "uint8": {"k": "int", "bits": 8, "signed": False},
    "int16": {"k": "int", "bits": 16}, "uint16": {"k": "int", "bits": 16, "signed": False},
    "int32": {"k": "int", "bits": 32}, "uint32": {"k": "int", "bits": 32, "signed": False},
    "int64": {"k": "int", "bits": 64}, "uint64": {"k": "int", "bits": 64, "signed": False},
    "float16": {"k": "float", "bits": 16}, "float32": {"k": "float", "bits": 32},
    "float64": {"k": "float", "bits": 64},
    "string32": {"k": "string", "bytes": 2147483648}, "string64": {"k": "string", "bytes": I64},
    "bytes32": {"k": "bytes", "bytes": 2147483648}, "bytes64": {"k": "bytes", "bytes": I64},
    "uuid": {"k": "string", "logical": "build.recap.UUID", "bytes": 36, "variable": False},
    "decimal128": {"k": "bytes", "logical": "build.recap.Decimal", "bytes": 16, "variable": False,
                   "x": {"precision": 28, "scale": 14}},
    "decimal256": {"k": "bytes", "logical": "build.recap.Decimal", "bytes": 32, "variable": False,
                   "x": {"precision": 56, "scale": 28}},
    "duration64": {"k": "int", "logical": "build.recap.Duration", "bits": 64, "x": {"unit": "millisecond"}},
    "interval128": {"k": "bytes", "logical": "build.recap.Interval", "bytes": 16, "variable": False,
                    "x": {"unit": "millisecond"}},
    "time32": {"k": "int", "logical": "build.recap.Time", "bits": 32, "x": {"unit": "second"}},
    "time64": {"k": "int", "logical": "build.recap.Time", "bits": 64, "x": {"unit": "second"}},
    "timestamp64": {"k": "int", "logical": "build.recap.Timestamp", "bits": 64,
                    "x": {"unit": "millisecond", "timezone": "UTC"}},
    "date32": {"k": "int", "logical": "build.recap.Date", "bits": 32, "x": {"unit": "day"}},
    "date64": {"k": "int", "logical": "build.recap.Date", "bits": 64, "x": {"unit": "day"}},
}


def freeze(v):
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted((str(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("list",) + tuple(freeze(x) for x in v)
    if hasattr(v, "type_") and hasattr(v, "extra_attrs"):
        return snap(v)
    if v is None or isinstance(v, (str, int, float, bool, bytes)):
        return (type(v).__name__, v)
    return (type(v).__name__, repr(v))


def children(t):
    k = t["k"]
    if k == "list":
        return [("v", t["v"])]
    if k == "map":
        return [("key", t["key"]), ("v", t["v"])]
    if k == "struct":
        return [(("f", i), c) for i, c in enumerate(t["f"])]
    if k == "union":
        return [(("t", i), c) for i, c in enumerate(t["t"])]
    return []


def with_child(t, slot, c):
    t = dict(t)
    if isinstance(slot, tuple):
        l = list(t[slot[0]])
        l[slot[1]] = c
        t[slot[0]] = l
    else:
        t[slot] = c
    return t


def node(kind, params, logical, alias, doc, extra, kids):
    return (kind, tuple(sorted((p, freeze(v)) for p, v in params.items())), logical, alias, doc,
            tuple(sorted((k, freeze(v)) for k, v in extra.items())), tuple(kids))


def term_snap(t, expand=False, drop=()):
    """Snapshot expected for a term.  expand=True replaces references to built-in aliases by the
    concrete type with the reference's attributes on top."""
    k = t["k"]
    if k == "proxy" and expand and t["alias"] in BUILTINS:
        t = expand_builtin(t)
        k = t["k"]
    params = {p: t.get(p, DEFAULTS[k].get(p)) for p in PARAMS[k]}
    return node(k, params, t.get("logical"), t.get("alias"), t.get("doc"), t.get("x", {}),
                [term_snap(c, expand) for _, c in children(t)])


def expand_builtin(t):
    b = BUILTINS[t["alias"]]
    n = dict(b)
    n["x"] = dict(b.get("x", {}))
    for key, v in t.get("x", {}).items():
        pk = {"bytes_": "bytes"}.get(key, key)
        if pk in PARAMS[n["k"]]:
            n[pk] = v
        else:
            n["x"][key] = v
    n["doc"] = t.get("doc")
    n["alias"] = None
    if t.get("logical") is not None:
        n["logical"] = t["logical"]
    return n


def snap(o, expand=False, own=False):
    """Snapshot of a real RecapType, by its public attributes."""
    k = KIND.get(type(o).__name__)
    if k is None:
        return ("?", repr(o))
    if k == "proxy":
        if expand and o.alias in BUILTINS:
            return term_snap({"k": "proxy", "alias": o.alias, "logical": o.logical, "doc": o.doc,
                              "x": dict(o.extra_attrs)}, True)
        params = {}
        kids = []
    elif k in ("null", "bool"):
        params, kids = {}, []
    elif k == "int":
        params, kids = {"bits": o.bits, "signed": o.signed}, []
    elif k == "float":
        params, kids = {"bits": o.bits}, []
    elif k in ("string", "bytes"):
        params, kids = {"bytes": o.bytes_, "variable": o.variable}, []
    elif k == "list":
        params, kids = {"length": o.length, "variable": o.variable}, [o.values]
    elif k == "map":
        params, kids = {}, [o.keys, o.values]
    elif k == "struct":
        params, kids = {}, list(o.fields)
    elif k == "enum":
        params, kids = {"symbols": o.symbols}, []
    elif k == "union":
        params, kids = {}, list(o.types)
    return node(k, params, o.logical, o.alias, o.doc, o.extra_attrs, [] if own else [snap(c, expand) for c in kids])


def build(t, reg):
    """Direct construction through the public constructors."""
    import recap.types as rt
    k = t["k"]
    cls = getattr(rt, CLASS[k])
    kw = {}
    for a in ("logical", "doc"):
        if t.get(a) is not None:
            kw[a] = t[a]
    kw.update({a: (list(v) if isinstance(v, list) else v) for a, v in t.get("x", {}).items()})
    if k == "proxy":
        return cls(t["alias"], reg, **kw)
    if t.get("alias") is not None:
        kw["alias"] = t["alias"]
    for p in PARAMS[k]:
        if p in t:
            v = t[p]
            kw["bytes_" if p == "bytes" else p] = list(v) if isinstance(v, list) else v
    if k == "list":
        kw["values"] = build(t["v"], reg)
    elif k == "map":
        kw["keys"] = build(t["key"], reg)
        kw["values"] = build(t["v"], reg)
    elif k == "struct":
        kw["fields"] = [build(c, reg) for c in t["f"]]
    elif k == "union":
        kw["types"] = [build(c, reg) for c in t["t"]]
    return cls(**kw)


def size(t):
    return 1 + sum(size(c) for _, c in children(t))


def defs(t, out=None):
    """alias -> defining term, in reading order."""
    out = {} if out is None else out
    for _, c in children(t):
        defs(c, out)
    if t["k"] != "proxy" and t.get("alias"):
        out.setdefault(t["alias"], []).append(t)
    return out


def walk_obj(o):
    yield o
    for a in ("values", "keys"):
        if hasattr(o, a) and hasattr(getattr(o, a), "type_"):
            yield from walk_obj(getattr(o, a))
    for a in ("fields", "types"):
        for c in getattr(o, a, None) or []:
            if hasattr(c, "type_"):
                yield from walk_obj(c)


def long_dict(t):
    """The fully written-out description of a term (the specification's longhand)."""
    k = t["k"]
    d = {"type": k if k != "proxy" else t["alias"]}
    if k != "proxy":
        d["alias"] = t.get("alias")
    d["logical"] = t.get("logical")
    d["doc"] = t.get("doc")
    d.update(t.get("x", {}))
    for p in PARAMS[k]:
        d[p] = t.get(p, DEFAULTS[k].get(p))
    if k == "list":
        d["values"] = long_dict(t["v"])
    elif k == "map":
        d["keys"] = long_dict(t["key"])
        d["values"] = long_dict(t["v"])
    elif k == "struct":
        d["fields"] = [long_dict(c) for c in t["f"]]
    elif k == "union":
        d["types"] = [long_dict(c) for c in t["t"]]
    return d


# ---------------------------------------------------------------------------- enumeration
def compositions(n, parts):
    if parts == 0:
        if n == 0:
            yield ()
        return
    for i in range(1, n - parts + 2):
        for rest in compositions(n - i, parts - 1):
            yield (i,) + rest


def shapes(n, leaves, containers=("list", "map", "struct", "union"), maxw=3):
    """All terms with exactly n nodes over the leaf terms given."""
    if n == 1:
        for l in leaves:
            yield l
        if "struct" in containers:
            yield {"k": "struct", "f": []}
        if "union" in containers:
            yield {"k": "union", "t": []}
        return
    if "list" in containers:
        for c in shapes(n - 1, leaves, containers, maxw):
            yield {"k": "list", "v": c}
    if "map" in containers:
        for a, b in compositions(n - 1, 2):
            for ka in shapes(a, leaves, containers, maxw):
                for vb in shapes(b, leaves, containers, maxw):
                    yield {"k": "map", "key": ka, "v": vb}
    for k, slot in (("struct", "f"), ("union", "t")):
        if k not in containers:
            continue
        for w in range(1, maxw + 1):
            for comp in compositions(n - 1, w):
                for kids in itertools.product(*[list(shapes(c, leaves, containers, maxw)) for c in comp]):
                    yield {"k": k, slot: list(kids)}


def paths(t, p=()):
    yield p
    for s, c in children(t):
        yield from paths(c, p + (s,))


def get(t, p):
    for s in p:
        t = t[s[0]][s[1]] if isinstance(s, tuple) else t[s]
    return t


def update(t, p, f):
    if not p:
        return f(t)
    return with_child(t, p[0], update(get(t, p[:1]), p[1:], f))


def attr_devs(kind, idx):
    """Attribute deviations available at a node; each is (slot, value)."""
    devs = [("doc", "d"), ("logical", "x.L"), ("x.default", None), ("x.default", 5), ("x.name", "n%d" % idx),
            ("x.foo", [1])]
    if kind != "proxy":
        devs.append(("alias", "a.N%d" % idx))
    devs += PARAM_DEVS.get(kind, [])
    return devs


PARAM_DEVS = {
    "int": [("bits", 7), ("signed", False)],
    "float": [("bits", 16)],
    "string": [("bytes", 36), ("fixed", 36)],
    "bytes": [("bytes", 9), ("fixed", 16)],
    "list": [("length", 3), ("fixedlen", 3)],
}


def apply_dev(t, slot, v):
    t = dict(t)
    if slot.startswith("x."):
        t["x"] = dict(t.get("x", {}))
        t["x"][slot[2:]] = v
    elif slot == "fixed":
        t["bytes"], t["variable"] = v, False
    elif slot == "fixedlen":
        t["length"], t["variable"] = v, False
    else:
        t[slot] = v
    return t


def deviate(t, k, devs=attr_devs):
    """All ways to apply exactly k attribute deviations (distinct slots) to the nodes of t."""
    ps = list(paths(t))
    options = []
    for i, p in enumerate(ps):
        for slot, v in devs(get(t, p)["k"], i):
            options.append((p, slot, v))
    def conflict(a, b):
        if a[0] != b[0]:
            return False
        sa, sb = a[1], b[1]
        return sa == sb or {sa, sb} == {"bytes", "fixed"} or {sa, sb} == {"length", "fixedlen"}
    for combo in itertools.combinations(options, k):
        if any(conflict(a, b) for a, b in itertools.combinations(combo, 2)):
            continue
        u = t
        for p, slot, v in combo:
            u = update(u, p, lambda n, slot=slot, v=v: apply_dev(n, slot, v))
        yield u


ODD = ([("x.default", v) for v in (0, False, "", [], {}, "null", ["null"], {"type": "int32"}, -1.5, True)]
       + [("x.foo", v) for v in (None, 0, False, "", [], {}, {"a": None})] + [("doc", ""), ("x.name", "")])


def odd(t):
    """All ways to give one node of t an attribute whose value is empty, zero, false or itself looks like a type, alone and with each other
    attribute that lives beside it."""
    for i, p in enumerate(list(paths(t))):
        kind = get(t, p)["k"]
        beside = [None, ("doc", "d"), ("x.name", "n"), ("x.default", None), ("x.foo", 1)] + ([("alias", "a.Odd")] if kind != "proxy" else [])
        for slot, v in ODD:
            for b in beside:
                if b is not None and b[0] == slot:
                    continue
                u = update(t, p, lambda n: apply_dev(n, slot, v))
                yield u if b is None else update(u, p, lambda n: apply_dev(n, *b))


def to_json(t):
    return t
