"""An independent reader of Avro schemas (JSON) into reference terms, written from the Avro specification and the documented
Recap mapping.  It shares nothing with recap.converters.avro."""
from mc import terms as M

I64 = M.I64
PRIM = {"null": {"k": "null"}, "boolean": {"k": "bool"}, "int": {"k": "int", "bits": 32}, "long": {"k": "int", "bits": 64},
        "float": {"k": "float", "bits": 32}, "double": {"k": "float", "bits": 64}, "bytes": {"k": "bytes", "bytes": I64},
        "string": {"k": "string", "bytes": I64}}


def logical(name, unit, bits):
    return {"k": "int", "bits": bits, "logical": "build.recap." + name, "x": {"unit": unit}}


LOGICAL = {"date": logical("Date", "day", 32), "time-millis": logical("Time", "millisecond", 32), "time-micros": logical("Time", "microsecond", 64),
           "timestamp-millis": logical("Timestamp", "millisecond", 64), "timestamp-micros": logical("Timestamp", "microsecond", 64),
           "uuid": {"k": "string", "bytes": 36, "variable": False, "logical": "build.recap.UUID"},
           "duration": {"k": "bytes", "bytes": 12, "variable": False, "logical": "build.recap.Interval", "x": {"unit": "millisecond"}}}


class Refuse(Exception):
    pass


def fullname(s, ns):
    """(namespace or None, simple name) of a named type's definition."""
    n = s["name"]
    if "." in n:
        return n.rsplit(".", 1)
    if "namespace" in s:
        ns = s["namespace"]
    return (ns or None), n


def alias(ns, n):
    return f"{ns or '_root'}.{n}"


def clone(t):
    t = dict(t)
    t["x"] = dict(t.get("x", {}))
    return t


def read(s, ns, defs):
    """Type schema -> term.  defs collects alias -> term of every named type."""
    if isinstance(s, list):
        return {"k": "union", "t": [read(x, ns, defs) for x in s], "x": {}}
    if isinstance(s, str):
        if s in PRIM:
            return clone(PRIM[s])
        return {"k": "proxy", "alias": s if "." in s else alias(ns, s), "x": {}}
    t = s["type"]
    if isinstance(t, (list, dict)):
        return read(t, ns, defs)
    named = t in ("record", "enum", "fixed")
    if named:
        ns, n = fullname(s, ns)
    lt = s.get("logicalType")
    if lt == "decimal":
        out = {"k": "bytes", "bytes": s["size"] if t == "fixed" else I64, "logical": "build.recap.Decimal", "x": {"precision": s["precision"], "scale": s.get("scale", 0)}}
    elif lt is not None:
        if lt not in LOGICAL:
            raise Refuse(lt)
        out = clone(LOGICAL[lt])
    elif t in PRIM:
        out = clone(PRIM[t])
    elif t == "fixed":
        out = {"k": "bytes", "bytes": s["size"], "variable": False, "x": {}}
    elif t == "enum":
        out = {"k": "enum", "symbols": list(s["symbols"]), "x": {}}
    elif t == "array":
        out = {"k": "list", "v": read(s["items"], ns, defs), "x": {}}
    elif t == "map":
        out = {"k": "map", "key": {"k": "string", "bytes": I64}, "v": read(s["values"], ns, defs), "x": {}}
    elif t == "record":
        out = {"k": "struct", "f": [field(f, ns, defs) for f in s["fields"]], "x": {}}
    else:
        return {"k": "proxy", "alias": t if "." in t else alias(ns, t), "x": {}}
    if s.get("doc") is not None:
        out["doc"] = s["doc"]
    if named:
        out["alias"] = alias(ns, n)
        out["x"]["name"] = n
        defs[out["alias"]] = out
    return out


def field(f, ns, defs):
    t = clone(read(f["type"], ns, defs))
    t["x"]["name"] = f["name"]
    if "doc" in f:
        t["doc"] = f["doc"]
    if "default" in f:
        t["x"]["default"] = f["default"]
    return t


def loose(s, top=False):
    """Drop what the property does not judge from a snapshot: whether fixed-size bytes say so, and the
    sign attribute of byte strings; at the top of a resolved reference also alias, doc, name and default."""
    kind, params, log, al, doc, extra, kids = s
    if kind == "bytes":
        params = tuple(p for p in params if p[0] != "variable")
        extra = tuple(e for e in extra if e[0] != "signed")
    if top:
        al = doc = None
        extra = tuple(e for e in extra if e[0] not in ("name", "default", "doc"))
    return kind, params, log, al, doc, extra, tuple(loose(k) for k in kids)
