"""What a JSON Schema (2020-12, the subset Recap reads) means as a Recap type, written from the JSON Schema specification and the documented mapping.

match() walks a real Recap type next to the schema it was read from; references are followed on both sides up to a depth, so it does
not matter which occurrence of a referenced schema holds the definition."""

LEAF = {"string": ("string", {"bytes_": None, "variable": True}), "number": ("float", {"bits": 64}), "integer": ("int", {"bits": 32, "signed": True}),
        "boolean": ("bool", {}), "null": ("null", {})}
LOGICAL = {"date": "org.iso.8601.Date", "date-time": "org.iso.8601.DateTime", "time": "org.iso.8601.Time"}


class Refuse(Exception):
    pass


class Differs(Exception):
    pass


def norm(s):
    return {"type": s} if isinstance(s, str) else s


def check(s, docs, seen=()):
    """Raises Refuse if Recap has no type for the schema (everything reachable included)."""
    s = norm(s)
    if not isinstance(s, dict):
        raise Refuse("not a schema")
    if "type" not in s and "$ref" in s:
        u = s["$ref"]
        if u not in seen:
            check(docs[u], docs, seen + (u,))
        return
    t = s.get("type")
    if isinstance(t, list):
        for x in t:
            check(x, docs, seen)
    elif t == "object":
        if "properties" not in s:
            raise Refuse("object without properties")
        for p in s["properties"].values():
            check(p, docs, seen)
    elif t == "array":
        if "items" not in s:
            raise Refuse("array without items")
        check(s["items"], docs, seen)
    elif not (isinstance(t, str) and t in LEAF):
        raise Refuse(str(t))


def nullable(s, docs):
    s = norm(s)
    if "type" not in s and "$ref" in s:
        return nullable(docs[s["$ref"]], docs)
    t = s["type"]
    return t == "null" or isinstance(t, list) and "null" in t


def is_list(s, docs):
    s = norm(s)
    if "type" not in s and "$ref" in s:
        return is_list(docs[s["$ref"]], docs)
    return isinstance(s["type"], list)


def want(path, got, exp):
    if type(got) is not type(exp) or got != exp:
        raise Differs(f"{path}: {got!r}, expected {exp!r}")


NONE = object()


def attrs(path, obj, doc, default, name):
    """doc and default are tuples of what is allowed (NONE: no default)."""
    x = dict(obj.extra_attrs)
    if obj.doc not in doc:
        raise Differs(f"{path}: doc {obj.doc!r}, expected {doc}")
    d = x.pop("default", NONE)
    if not any(d is e or type(d) is type(e) and d == e for e in default):
        raise Differs(f"{path}: default {d!r}, expected {default}")
    want(path + " name", x.pop("name", None), name)
    want(path + " other attributes", x, {})


def site(s, docs):
    """(schema meant, alias, allowed docs, allowed defaults) at a place where s is used."""
    s = norm(s)
    if "type" not in s and "$ref" in s:
        t, alias, doc, dflt = site(docs[s["$ref"]], docs)
        doc = (s["description"],) if "description" in s else doc + (None,)
        dflt = (s["default"],) if "default" in s else dflt + (NONE,)
        return t, alias, doc, dflt
    doc = (s.get("description"),)
    dflt = (s["default"],) if "default" in s else (NONE,)
    if "$id" in s:
        doc += (None,) if "description" not in s else ()
    return s, s.get("$id"), doc, dflt


def match(path, obj, s, docs, alias_of, depth, name=None, optional=False):
    t, sid, doc, dflt = site(s, docs)
    alias = alias_of(sid) if sid is not None else None
    if optional:
        dflt = tuple(None if d is NONE else d for d in dflt)
        if not nullable(s, docs):
            if is_list(s, docs):
                t = dict(t, type=["null"] + t["type"])
            else:
                want(path + " kind", type(obj).__name__, "UnionType")
                want(path + " alternatives", [type(x).__name__ for x in obj.types[:1]] + [len(obj.types)], ["NullType", 2])
                want(path + " alias", obj.alias, None)
                attrs(path, obj, doc, dflt, name)
                attrs(path + "|null", obj.types[0], (None,), (NONE,), None)
                doc, dflt, name, obj, path = (None,), (NONE,), None, obj.types[1], path + "|"
    want(path + " alias", obj.alias, alias)
    attrs(path, obj, doc, dflt, name)
    if type(obj).__name__ == "ProxyType":
        if depth == 0:
            return
        obj, depth = obj.resolve(), depth - 1
    k = t["type"]
    if isinstance(k, list):
        want(path + " kind", obj.type_, "union")
        want(path + " alternatives", len(obj.types), len(k))
        for i, x in enumerate(k):
            match(f"{path}|{i}", obj.types[i], x, docs, alias_of, depth)
        return
    logical = LOGICAL.get(t.get("format")) if k == "string" else None
    want(path + " logical", obj.logical, logical)
    if k == "object":
        want(path + " kind", obj.type_, "struct")
        want(path + " fields", [f.extra_attrs.get("name") for f in obj.fields], list(t["properties"]))
        for f, (n, p) in zip(obj.fields, t["properties"].items()):
            match(f"{path}.{n}", f, p, docs, alias_of, depth, n, n not in t.get("required", ()))
    elif k == "array":
        want(path + " kind", (obj.type_, obj.length, obj.variable), ("list", None, True))
        match(path + "[]", obj.values, t["items"], docs, alias_of, depth)
    else:
        kind, params = LEAF[k]
        if k == "string" and t.get("format") == "bytes":
            kind = "bytes"
        want(path + " kind", obj.type_, kind)
        for p, v in params.items():
            want(f"{path} {p}", getattr(obj, p), v)
