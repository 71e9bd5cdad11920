"""PostgreSQL columns -> Recap fields, through the real client and SQL."""
import itertools
from mc import fakedb as F
from mc import terms as M
from mc.dbcheck import DB
from mc.engine import observe

PID = "C16"
RULE = ("every PostgreSQL type x length / precision / scale boundaries, enums (0-3 labels, catalog order different from sort order), "
        "arrays of every element type x dimensions, x nullability x default x column name; all ordered pairs of column types; all orders of "
        "columns; all sequences of tables read over one and over several connections; decoy tables elsewhere; unsupported types; arrays "
        "with enforced dimensions.  Expected fields come from an independent table; an array must be a list of the element type or of itself")
ASSUMPTIONS = ["information_schema and pg_catalog have the columns and contents documented by PostgreSQL; the SQL is executed by sqlite on a "
               "mimicked catalog", "array elements have the largest size, since the catalog has no element lengths (documented)"]
MAX = 1073741824
ARR = "_arr.X"
ELEM = {"int2": {"k": "int", "bits": 16}, "int4": {"k": "int", "bits": 32}, "int8": {"k": "int", "bits": 64}, "float4": {"k": "float", "bits": 32},
        "float8": {"k": "float", "bits": 64}, "bool": {"k": "bool"}, "text": {"k": "string", "bytes": MAX}, "varchar": {"k": "string", "bytes": MAX},
        "bpchar": {"k": "string", "bytes": MAX}, "json": {"k": "string", "bytes": MAX}, "jsonb": {"k": "string", "bytes": MAX},
        "uuid": {"k": "string", "bytes": 36, "variable": False, "logical": "build.recap.UUID"}, "bytea": {"k": "bytes", "bytes": MAX},
        "varbit": {"k": "bytes", "bytes": MAX}, "bit": {"k": "bytes", "bytes": MAX, "variable": False},
        "timestamp": {"k": "int", "bits": 64, "logical": "build.recap.Timestamp", "x": {"unit": "microsecond"}},
        "timestamptz": {"k": "int", "bits": 64, "logical": "build.recap.Timestamp", "x": {"unit": "microsecond"}},
        "numeric": {"k": "bytes", "bytes": 32, "variable": False, "logical": "build.recap.Decimal", "x": {"precision": None, "scale": None}}}


def cols():
    out = []

    def add(dt, term, label="", **a):
        out.append((f"{dt}{label}", {"data_type": dt, "udt_name": None} | a, term))
    for dt, bits, p in (("bigint", 64, 64), ("integer", 32, 32), ("smallint", 16, 16)):
        add(dt, {"k": "int", "bits": bits}, numeric_precision=p, numeric_scale=0, udt_name="int%d" % (bits // 8))
    add("double precision", {"k": "float", "bits": 64}, numeric_precision=53)
    add("real", {"k": "float", "bits": 32}, numeric_precision=24)
    add("boolean", {"k": "bool"}, udt_name="bool")
    add("text", {"k": "string", "bytes": MAX}, character_octet_length=MAX)
    add("json", {"k": "string"})
    add("jsonb", {"k": "string"})
    # synonyms the converter names although information_schema uses the long forms
    for bits, dts in ((64, ("int8", "bigserial", "serial8")), (32, ("int", "int4", "serial", "serial4")), (16, ("int2", "smallserial", "serial2"))):
        for dt in dts:
            add(dt, {"k": "int", "bits": bits}, numeric_precision=bits)
    add("float8", {"k": "float", "bits": 64})
    add("float4", {"k": "float", "bits": 32})
    add("bool", {"k": "bool"})
    add("decimal", {"k": "bytes", "bytes": 32, "variable": False, "logical": "build.recap.Decimal", "x": {"precision": 7, "scale": 3}}, numeric_precision=7, numeric_scale=3)
    add("varchar", {"k": "string", "bytes": 12}, character_octet_length=12, character_maximum_length=3)
    add("char", {"k": "string", "bytes": 12, "variable": False}, character_octet_length=12, character_maximum_length=3)
    for n in (1, 4, 255, MAX):
        add("character varying", {"k": "string", "bytes": n}, f":{n}", character_octet_length=n, character_maximum_length=max(1, n // 4))
        add("character", {"k": "string", "bytes": n, "variable": False}, f":{n}", character_octet_length=n, character_maximum_length=max(1, n // 4))
    add("uuid", ELEM["uuid"])
    add("bytea", {"k": "bytes", "bytes": MAX})
    for n in (None, 1, 8, 9):
        add("bit varying", {"k": "bytes", "bytes": MAX}, f":{n}", character_maximum_length=n)
    for n in (1, 7, 8, 9, 16, 17, 83886080):
        add("bit", {"k": "bytes", "bytes": (n + 7) // 8, "variable": False}, f":{n}", character_maximum_length=n)
    for dt in ("timestamp without time zone", "timestamp with time zone"):
        for p in range(7):
            add(dt, {"k": "int", "bits": 64, "logical": "build.recap.Timestamp", "x": {"unit": "second" if p == 0 else "millisecond" if p <= 3 else "microsecond"}},
                f":{p}", datetime_precision=p)
    for p, s in ((None, None), (1, 0), (10, 2), (1000, 1000), (5, 5), (5, 0)):
        add("numeric", {"k": "bytes", "bytes": 32, "variable": False, "logical": "build.recap.Decimal", "x": {"precision": p, "scale": s}},
            f":{p},{s}", numeric_precision=p, numeric_scale=s)
    for labels in (["a"], ["b", "a"], ["sad", "ok", "happy"], ["Z", "a b", "é", ""], [" b", "b ", "b", "B"]):
        add("USER-DEFINED", {"k": "enum", "symbols": labels}, ":" + "/".join(labels), udt_name="mood", enum_values=labels)
    for e, t in ELEM.items():
        for d in (1, 2):
            add("ARRAY", {"k": "list", "alias": ARR, "v": {"k": "union", "t": [t, {"k": "proxy", "alias": ARR}]}}, f":{e}:{d}", udt_name="_" + e, attndims=d)
    for e in ("mood", "int4_", "te_xt", "bool1", "date", "interval", "inet", "point", "unknown"):
        add("ARRAY", None, f":{e}", udt_name="_" + e, attndims=1)
    for dt in ("date", "time without time zone", "interval", "money", "inet", "cidr", "xml", "point", "tsvector", "oid", "unknown"):
        add(dt, None, datetime_precision=6)
    add("USER-DEFINED", None, ":composite", udt_name="comp")
    return out


def normal(struct):
    """Array aliases get a canonical name after checking that each is a well-formed self reference."""
    import re
    seen, err = {}, None
    for o in M.walk_obj(struct):
        if type(o).__name__ == "ListType" and o.alias is not None:
            if o.alias in seen:
                err = f"alias {o.alias} is defined twice"
            if not re.fullmatch(r"[a-zA-Z_]\w*(\.[a-zA-Z_]\w*)+", o.alias, re.A):
                err = f"alias {o.alias!r} is not valid"
            seen[o.alias] = o
    for o in M.walk_obj(struct):
        if type(o).__name__ == "ListType" and o.alias is not None:
            ps = [p for p in M.walk_obj(o) if type(p).__name__ == "ProxyType"]
            for p in ps:
                r = observe(p.resolve)
                if p.alias != o.alias or r[0] != "ok" or M.snap(r[1])[6] != M.snap(o)[6]:
                    err = f"reference {p.alias} in {o.alias} resolves to {r}"
                elif observe(lambda: [q for q in M.walk_obj(r[1]) if type(q).__name__ == "ProxyType"][0].resolve())[0] != "ok":
                    err = f"reference {p.alias} cannot be followed twice"

    def canon(x):
        if isinstance(x, tuple):
            return tuple(canon(y) for y in x)
        return ARR if isinstance(x, str) and x in seen else x
    return canon(M.snap(struct)), err


db = None


def start_worker(ctx):
    global db
    F.install()
    from recap.clients.postgresql import PostgresqlClient
    db = DB("postgresql", PostgresqlClient, cols(), normal)


def BOUNDS(tier):
    return {"columns": len(cols()), "pairs": "one per type" if tier == "quick" else "all", "sequence": 2 if tier == "quick" else 3}


def cases(tier):
    yield from DB("postgresql", None, cols()).cases(tier)
    yield {"arraynames": 1}
    yield {"dims": 1}


ANAMES = ["a", "a.b", "a_b", "a-b", "A b", "1", "1a", "A", "_", "é", "a_b_", "", "__", "select"]


def run_case(case, ctx):
    if "arraynames" in case:
        idx = [i for i, c in enumerate(db.cols) if c[0] in ("ARRAY:int4:1", "ARRAY:text:2")]
        for names in itertools.chain(itertools.permutations(ANAMES, 2), itertools.combinations(ANAMES, 3)):
            rows = [(idx[k % 2], n, "YES" if k % 2 else "NO", None) for k, n in enumerate(names)]
            cl = db.connect({"t": [db.row(*r) for r in rows]})
            ctx.count(states=1, traces=1)
            for _ in range(2):
                db.judge(ctx, "arraynames:" + "/".join(names), f"array columns {names}", db.read(cl, "t"), rows)
        return
    if "dims" in case:
        from recap.converters.postgresql import PostgresqlConverter
        from recap.clients.postgresql import PostgresqlClient
        for e, t in ELEM.items():
            for d, null, default, ns in itertools.product((1, 2, 3), ("YES", "NO"), (None, "{}"), (None, "my.ns")):
                want = {"k": "union", "t": [{"k": "null"}, t]}
                for _ in range(d):
                    want = {"k": "list", "v": want}
                conv = PostgresqlConverter(enforce_array_dimensions=True, **({"namespace": ns} if ns else {}))
                d2 = DB("postgresql", lambda conn: PostgresqlClient(conn, conv), [("dims", {"data_type": "ARRAY", "udt_name": "_" + e, "attndims": d}, want)])
                cl = d2.connect({"t": [d2.row(0, "a.b", null, default), d2.row(0, "a_b", null, default)]})
                ctx.count(states=1, traces=1)
                for _ in range(2):
                    d2.judge(ctx, f"dims:{e}:{d}", f"{d}-dimensional {e}", d2.read(cl, "t"), [(0, "a.b", null, default), (0, "a_b", null, default)])
        return
    db.run_case(case, ctx)
