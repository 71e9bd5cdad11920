"""Protobuf files as plain terms, their text, and what they mean as Recap types, written from the Protobuf language guide and the documented mapping.

A file: {"syntax", "package", "els": [...]}; elements:
  {"m": name, "els": [...]}            message (elements: fields, oneofs, nested messages and enums)
  {"e": name, "syms": [...]}           enum; "nums": their numbers; "stmts": statements without effect, by position
  {"f": name, "t": type, "c": None|"optional"|"required"|"repeated"}
  {"map": name, "k": type, "t": type}
  {"oneof": name, "fs": [(name, type), ...]}
  {"raw": text}                        anything that has no effect
"""
SCALAR = {"string": ("string", {"bytes_": 2147483648, "variable": True}), "bytes": ("bytes", {"bytes_": 2147483648, "variable": True}), "bool": ("bool", {}),
          "float": ("float", {"bits": 32}), "double": ("float", {"bits": 64})}
for n, b, s in (("int32", 32, True), ("int64", 64, True), ("uint32", 32, False), ("uint64", 64, False), ("sint32", 32, True), ("sint64", 64, True),
                ("fixed32", 32, False), ("fixed64", 64, False), ("sfixed32", 32, True), ("sfixed64", 64, True)):
    SCALAR[n] = ("int", {"bits": b, "signed": s})
WKT = {"google.protobuf.Timestamp": ("int", {"bits": 64, "signed": True}, "build.recap.Timestamp", {"unit": "nanosecond", "timezone": "UTC"}),
       "google.protobuf.Duration": ("int", {"bits": 64, "signed": True}, "build.recap.Duration", {"unit": "nanosecond"}),
       "google.protobuf.NullValue": ("null", {}, None, {})}


def text(f):
    out = []
    if f.get("syntax"):
        out.append(f'syntax = "{f["syntax"]}";')
    pk = f"package {f['package']};" if f.get("package") else None
    if pk and not f.get("late"):
        out.append(pk)
    for e in f["els"]:
        out.append(element(e, [0]))
    if pk and f.get("late"):
        out.append(pk)
    return "\n".join(out) + "\n"


def element(e, num):
    if "raw" in e:
        return e["raw"]
    if "m" in e:
        n = [0]
        return f"message {e['m']} {{\n" + "\n".join(element(x, n) for x in e["els"]) + "\n}"
    if "e" in e:
        lines = [f"{s} = {i};" for s, i in zip(e["syms"], e.get("nums") or range(len(e["syms"])))]
        for at, raw in e.get("stmts", ()):
            lines.insert(at, raw)
        return f"enum {e['e']} {{\n" + "\n".join(lines) + "\n}"
    if "oneof" in e:
        out = []
        for n, t in e["fs"]:
            num[0] += 1
            out.append(f"{t} {n} = {num[0]};")
        return f"oneof {e['oneof']} {{\n" + "\n".join(out) + "\n}"
    num[0] = e.get("n", num[0] + 1)
    if "map" in e:
        return f"map<{e['k']}, {e['t']}> {e['map']} = {num[0]};"
    return f"{e['c'] + ' ' if e['c'] else ''}{e['t']} {e['f']} = {num[0]};"


BUILTIN = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "string32", "string64", "bytes32", "bytes64"}


class Refuse(Exception):
    pass


class Differs(Exception):
    pass


def declared(f, ns, out=None):
    """alias -> message or enum"""
    out = {} if out is None else out
    ns = f.get("package") or ns

    def go(els):
        for e in els:
            if "m" in e or "e" in e:
                a = f"{ns}.{e.get('m') or e['e']}"
                if a in out:
                    raise Refuse("declared twice")
                out[a] = (e, ns)
                if "m" in e:
                    go(e["els"])
    go(f["els"])
    return out


def target(t, ns):
    t2 = t.removeprefix(".")
    return t2 if "." in t else f"{ns}.{t}"


def root(f, ns, prior=None):
    decl = declared(f, ns, dict(prior or {}))
    ns = f.get("package") or ns
    ms = [e for e in f["els"] if "m" in e]
    if not ms:
        raise Refuse("no message")
    seen = set()

    def go(a):
        if a in seen:
            return
        seen.add(a)
        if a not in decl:
            raise Refuse("undeclared " + a)
        e, n = decl[a]
        if "m" in e:
            for x in e["els"]:
                if "map" in x and (x["k"] in ("float", "double", "bytes") or x["k"] not in SCALAR):
                    raise Refuse("map key")
                for t in ([x["t"]] if "t" in x else []) + [t for _, t in x.get("fs", ())]:
                    if t not in SCALAR and t not in WKT:
                        go(target(t, n))
    # a map key is judged when its message is read, whether or not it is used
    for a, (e, n) in decl.items():
        if "m" in e and any("map" in x and (x["k"] in ("float", "double", "bytes") or x["k"] not in SCALAR) for x in e["els"]):
            raise Refuse("map key")
    r = f"{ns}.{ms[0]['m']}"
    go(r)
    return r, decl


def want(path, got, exp):
    if type(got) is not type(exp) or got != exp:
        raise Differs(f"{path}: {got!r}, expected {exp!r}")


def attrs(path, o, **x):
    want(path + " attributes", dict(o.extra_attrs), x)
    want(path + " doc", o.doc, None)


def match_type(path, o, t, ns, decl, depth, **x):
    if t in SCALAR or t in WKT:
        k, p, lg, ex = (*SCALAR[t], None, {}) if t in SCALAR else WKT[t]
        if type(o).__name__ == "ProxyType" and o.alias in BUILTIN:      # descriptions name built-in types
            r = o.resolve()
            r.alias, r.extra_attrs = None, {**r.extra_attrs, **o.extra_attrs}
            o = r
        want(path + " kind", o.type_, k)
        want(path + " logical", o.logical, lg)
        want(path + " alias", o.alias, None)
        for a, v in p.items():
            want(f"{path} {a}", getattr(o, a), v)
        attrs(path, o, **ex, **x)
        return
    a = target(t, ns)
    want(path + " alias", o.alias, a)
    attrs(path, o, **x)
    if type(o).__name__ == "ProxyType":
        if depth == 0:
            return
        o, depth = o.resolve(), depth - 1
    match_decl(path, o, a, decl, depth)


def nullable(path, o, **x):
    want(path + " kind", o.type_, "union")
    want(path + " null", (o.types[0].type_, o.types[0].extra_attrs, o.alias), ("null", {}, None))
    attrs(path, o, **x)


def match_decl(path, o, a, decl, depth):
    e, ns = decl[a]
    want(path + " logical", o.logical, None)
    if "e" in e:
        want(path + " enum", (o.type_, list(getattr(o, "symbols", ()))), ("enum", list(e["syms"])))
        return
    want(path + " kind", o.type_, "struct")
    fs = [x for x in e["els"] if "f" in x or "map" in x or "oneof" in x]
    want(path + " fields", [f.extra_attrs.get("name") for f in o.fields], [x.get("f") or x.get("map") or x.get("oneof") for x in fs])
    for x, f in zip(fs, o.fields):
        n = f.extra_attrs["name"]
        p = f"{path}.{n}"
        if "oneof" in x:
            nullable(p, f, name=n, default=None)
            want(p + " alternatives", len(f.types), len(x["fs"]) + 1)
            for (m, t), c in zip(x["fs"], f.types[1:]):
                match_type(f"{p}|{m}", c, t, ns, decl, depth, name=m)
            continue
        if x.get("c") == "required":
            match_type(p, f, x["t"], ns, decl, depth, name=n)
            continue
        if "f" in x and x["t"] == "google.protobuf.NullValue" and x["c"] != "repeated":
            match_type(p, f, x["t"], ns, decl, depth, name=n, default=None)
            continue
        nullable(p, f, name=n, default=None)
        want(p + " alternatives", len(f.types), 2)
        c = f.types[1]
        if "map" in x:
            want(p + " kind", (c.type_, c.alias, c.extra_attrs), ("map", None, {}))
            match_type(p + " key", c.keys, x["k"], ns, decl, depth)
            match_type(p + " value", c.values, x["t"], ns, decl, depth)
        elif x["c"] == "repeated":
            want(p + " kind", (c.type_, c.alias, c.extra_attrs, c.length, c.variable), ("list", None, {}, None, True))
            match_type(p + "[]", c.values, x["t"], ns, decl, depth)
        else:
            match_type(p, c, x["t"], ns, decl, depth)


def match(o, r, decl, depth=4):
    want("$ alias", o.alias, r)
    attrs("$", o)
    match_decl("$", o, r, decl, depth)
