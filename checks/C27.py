"""Conversions have no memory and no side effects: all sequences of conversions in one process, and all single preemptions of one conversion by another."""
import copy, itertools, json, os, pickle, sys
from mc import fakedb as F
from mc import terms as M
from mc.engine import observe

PID = "C27"
RULE = ("every sequence of conversions up to the depth in one process (each process forked from one that has converted nothing): reading and writing Recap descriptions, Avro, JSON "
        "Schema and Protobuf with colliding names, and reading catalog rows of every database with one converter, parsing URLs, and reading tables with clients; in a second pass every result is overwritten by its "
        "owner before the next conversion.  Third family: one conversion preempted, at every source line of Recap it executes, by a complete other conversion of the same objects.  Every result is compared with the result "
        "of the same conversion in a process of its own, and all inputs are compared with themselves before")
ASSUMPTIONS = ["Avro, and Protobuf reading, use a new converter per schema (those converters know the names of earlier schemas by design); JSON Schema, Avro and Protobuf writing and database converters are reused",
               "threads are interleaved at source lines, one preemption", "one client or converter of a database is not used by several threads (every thread opens its own client)", "values of attributes (a default that is a list) may be shared between results and inputs"]
CASE_TIMEOUT = 600

D = {
    "d1": {"type": "struct", "alias": "a.b.R", "doc": "root", "fields": [
        {"type": "struct", "alias": "a.b.N", "name": "n", "fields": [{"type": "int32", "name": "x", "doc": "o"}, {"type": "a.b.R", "name": "up"} | {"type": "bool"}]},
        {"type": "a.b.N", "name": "m", "doc": "again"}, {"type": ["null", "a.b.N"], "name": "o", "default": None},
        {"type": "list", "values": {"type": "a.b.N"}, "name": "l"}, {"type": "map", "keys": "string", "values": "string32", "name": "p"},
        {"type": "enum", "alias": "a.b.E", "symbols": ["A", "B"], "name": "e"}, {"type": "a.b.E", "name": "f"}, {"type": "string32", "bytes": 5, "default": "q", "name": "q"}, {"type": ["bool", "null"], "name": "bn"}, {"type": "union", "types": ["int64", "null", {"type": "bytes", "bytes": 3}], "name": "u3"},
        {"type": "a.b.E", "symbols": ["C", "A"], "name": "g"}, {"type": "timestamp64", "name": "t", "unit": "microsecond"}]},
    "d2": {"type": "struct", "alias": "a.b.R", "fields": [{"type": "int", "bits": 16, "alias": "a.b.N", "name": "n"}, {"type": "a.b.N", "name": "k"}, {"type": "uint8", "name": "u", "default": 3}]},
    "d3": {"type": "struct", "alias": "a.b.N", "fields": [{"type": "union", "types": ["null", "bool"], "name": "c", "default": None}, {"type": "union", "types": ["int32", "string", "null"], "name": "v"}, {"type": "decimal128", "precision": 9, "scale": 2, "name": "dec"},
                                                         {"type": "struct", "alias": "a.b.R", "fields": [], "name": "w"}]},
    "d4": {"type": "struct", "alias": "a.b.R", "fields": [{"type": ["null", "a.b.R"], "name": "next", "default": None}]},
}
AVRO = {
    "a1": {"type": "record", "name": "R", "namespace": "a.b", "fields": [{"name": "x", "type": {"type": "record", "name": "N", "fields": [{"name": "i", "type": "int", "default": 1}]}}, {"name": "y", "type": ["null", "N"], "default": None}]},
    "a2": {"type": "record", "name": "R", "namespace": "a.b", "fields": [{"name": "x", "type": {"type": "enum", "name": "N", "symbols": ["Q"]}}, {"name": "z", "type": {"type": "array", "items": "N"}}]},
    "a3": {"type": "record", "name": "R", "fields": [{"name": "x", "type": ["null", "R"]}]},
}
JS = {
    "j1": {"$id": "https://a.b/r", "type": "object", "properties": {"x": {"type": "object", "$id": "https://a.b/n", "properties": {"i": {"type": "integer"}}}, "y": {"$ref": "https://a.b/n"}}, "required": ["x"]},
    "j2": {"$id": "https://a.b/r", "type": "object", "properties": {"x": {"type": "string", "$id": "https://a.b/n"}, "z": {"type": "array", "items": {"type": "number"}}}},
    "j3": {"type": "object", "properties": {"s": {"type": "string", "default": "a", "description": "d"}}},
}
NEED = {"type": "object", "properties": {"x": {"$ref": "https://a.b/n"}, "y": {"type": "array", "items": {"$ref": "https://a.b/n"}}}}
DOCS = [{"$id": "https://a.b/n", "type": "object", "properties": {"p": {"type": "integer"}}}, {"$id": "https://a.b/n", "type": "array", "items": {"type": "string"}}, None]
PROTO = {
    "p1": 'syntax = "proto3"; package a.b; message R { N x = 1; N y = 2; enum E { A = 0; } repeated E e = 3; } message N { int32 i = 1; R r = 2; }',
    "p2": 'syntax = "proto3"; package a.b; message R { E x = 1; map<string, E> y = 2; } enum E { B = 0; }',
    "p3": 'message R { optional int32 x = 1; oneof o { string a = 2; R b = 3; } }',
}


def col(dt, null="YES", default=None, name="c", **k):
    return {"COLUMN_NAME": name, "DATA_TYPE": dt, "IS_NULLABLE": null, "COLUMN_DEFAULT": default, "CHARACTER_MAXIMUM_LENGTH": None, "CHARACTER_OCTET_LENGTH": None, "NUMERIC_PRECISION": None, "NUMERIC_SCALE": None,
            "DATETIME_PRECISION": None, "UDT_NAME": None, "ATTNDIMS": 0, "ENUM_VALUES": None, "COLUMN_TYPE": dt, "TYPE": dt, "CHARACTER_OCTET_LENGTH": 10, "COMMENT": None} | k


COLS = {
    "mysql": [[col("int"), col("varchar", "NO", "x", "d")], [col("int", "NO"), col("timestamp", DATETIME_PRECISION=3, name="t")], [col("varchar"), col("geometry", name="g")]],
    "postgresql": [[col("ARRAY", UDT_NAME="_int4", ATTNDIMS=1), col("integer", "NO", name="i")], [col("ARRAY", "NO", UDT_NAME="_text", ATTNDIMS=2), col("USER-DEFINED", UDT_NAME="mood", ENUM_VALUES=["a", "b"], name="m")],
                   [col("ARRAY", UDT_NAME="_int4", ATTNDIMS=2, name="other"), col("USER-DEFINED", UDT_NAME="mood", ENUM_VALUES=["z"], name="m")]],
    "snowflake": [[col("NUMBER", NUMERIC_PRECISION=10, NUMERIC_SCALE=2), col("TEXT", "NO", CHARACTER_OCTET_LENGTH=9, name="t")], [col("TIMESTAMP_TZ", DATETIME_PRECISION=9), col("BOOLEAN", "NO", "true", "b")]],
    "sqlite": [[col("INTEGER"), col("VARCHAR(3)", "NO", "x", "d")], [col("DECIMAL(4,2)"), col("", name="n")]],
}


def BOUNDS(tier):
    return {"conversions": len(OPS), "depth": "2, and 3 over a reduced set" if tier == "quick" else "3, and 4 over a reduced set", "preemptions": 1}


class Env:
    """Everything shared by the conversions of one execution."""

    def __init__(self):
        from recap.converters.avro import AvroConverter
        from recap.converters.json_schema import JSONSchemaConverter
        from recap.converters.mysql import MysqlConverter
        from recap.converters.postgresql import PostgresqlConverter
        from recap.converters.protobuf import ProtobufConverter
        from recap.converters.snowflake import SnowflakeConverter
        from recap.converters.sqlite import SQLiteConverter
        from recap.converters.bigquery import BigQueryConverter
        from recap.converters.hive_metastore import HiveMetastoreConverter
        from recap.types import from_dict
        self.d = copy.deepcopy(D)
        self.s = {k: from_dict(copy.deepcopy(v)) for k, v in D.items()}
        self.a, self.j = copy.deepcopy(AVRO), copy.deepcopy(JS)
        self.cols = copy.deepcopy(COLS)
        self.conv = {"mysql": MysqlConverter(), "postgresql": PostgresqlConverter(), "snowflake": SnowflakeConverter(), "sqlite": SQLiteConverter(), "json": JSONSchemaConverter(),
                     "bigquery": BigQueryConverter(), "hive": HiveMetastoreConverter(), "avro": AvroConverter(), "proto": ProtobufConverter()}
        from google.cloud.bigquery import SchemaField
        self.bq = [[SchemaField("a", "INTEGER"), SchemaField("r", "RECORD", mode="REPEATED", fields=[SchemaField("b", "STRING", mode="REQUIRED")])], [SchemaField("a", "STRING", max_length=3), SchemaField("r", "NUMERIC", mode="REQUIRED")]]
        from pymetastore import htypes as H
        from pymetastore.metastore import HColumn
        import types
        H.PrimitiveCategory
        i, s = H.HPrimitiveType(H.PrimitiveCategory.INT), H.HPrimitiveType(H.PrimitiveCategory.STRING)
        self.hive = [types.SimpleNamespace(name="t", columns=[HColumn("c", i, "doc"), HColumn("m", H.HMapType(s, H.HListType(i)))]), types.SimpleNamespace(name="t", columns=[HColumn("c", H.HStructType(["x", "y"], [i, s])), HColumn("m", s)])]

    def snapshot(self):
        return (json.dumps([self.d, self.a, self.j, self.cols], sort_keys=False), {k: deep(v) for k, v in self.s.items()}, repr(self.bq), [[(c.name, repr(vars(c.type)) if hasattr(c.type, "__dict__") else repr(c.type), c.comment) for c in t.columns] for t in self.hive])


def deep(o, depth=3):
    """Snapshot, with what references mean."""
    s = M.snap(o)
    if type(o).__name__ == "ProxyType" and depth:
        r = observe(o.resolve)
        return (s, deep(r[1], depth - 1) if r[0] == "ok" else r[:2])
    kids = [getattr(o, a) for a in ("keys", "values") if hasattr(getattr(o, a, None), "type_")] + [c for a in ("fields", "types") for c in getattr(o, a, None) or []]
    return (s, tuple(deep(c, depth) for c in kids))


def canon(v):
    if hasattr(v, "type_"):
        return ("type", deep(v))
    if type(v).__name__ == "File":
        from proto_schema_parser.generator import Generator
        return ("proto", Generator().generate(v))
    return ("json", json.dumps(v))


def mk_ops():
    ops = {}
    for k in D:
        ops["from_dict:" + k] = lambda e, k=k: __import__("recap.types").types.from_dict(e.d[k])
        ops["to_dict:" + k] = lambda e, k=k: __import__("recap.types").types.to_dict(e.s[k])
        ops["avro:" + k] = lambda e, k=k: new("avro").from_recap(e.s[k])
        ops["json:" + k] = lambda e, k=k: new("json").from_recap(e.s[k])
        ops["proto:" + k] = lambda e, k=k: new("proto").from_recap(e.s[k])
    for k in ("d1", "d2"):
        ops["longdict:" + k] = lambda e, k=k: __import__("recap.types").types.to_dict(e.s[k], clean=False)
        ops["avro again:" + k] = lambda e, k=k: e.conv["avro"].from_recap(e.s[k])
        ops["json again:" + k] = lambda e, k=k: e.conv["json"].from_recap(e.s[k])
        ops["proto again:" + k] = lambda e, k=k: e.conv["proto"].from_recap(e.s[k])
        ops["nullable:" + k] = lambda e, k=k: e.s[k].fields[1].make_nullable()
        ops["resolve:" + k] = lambda e, k=k: e.s[k].fields[1].resolve()
        ops["copy:" + k] = lambda e, k=k: copy.deepcopy(e.s[k])
    ops["resolve:t"] = lambda e: e.s["d1"].fields[-1].resolve()
    ops["equal"] = lambda e: [e.s[a] == e.s[b] for a in e.s for b in e.s]
    for k in AVRO:
        ops["read avro:" + k] = lambda e, k=k: new("avro").to_recap(json.dumps(e.a[k]))
    for k in JS:
        ops["read json:" + k] = lambda e, k=k: new("json").to_recap(json.dumps(e.j[k]))
        ops["read json again:" + k] = lambda e, k=k: e.conv["json"].to_recap(json.dumps(e.j[k]))
    for i in range(len(DOCS)):
        ops[f"read json with:{i}"] = lambda e, i=i: with_docs(i).to_recap(json.dumps(NEED))
    for k, v in PROTO.items():
        ops["read proto:" + k] = lambda e, v=v: new("proto").to_recap(v)
    for db in COLS:
        for i in range(len(COLS[db])):
            ops[f"{db}:{i}"] = lambda e, db=db, i=i: e.conv[db].to_recap(e.cols[db][i])
    for i in range(2):
        ops[f"bigquery:{i}"] = lambda e, i=i: e.conv["bigquery"].to_recap(e.bq[i])
        ops[f"hive:{i}"] = lambda e, i=i: e.conv["hive"].to_recap(e.hive[i])
    for k, u in TABLES.items():
        ops["table " + k] = lambda e, u=u: read_table(u)
    for i, (m, u) in enumerate(PARSE):
        ops[f"url:{i}"] = lambda e, m=m, u=u: list(__import__("recap.clients").clients.parse_url(m, u, strict=False))
    ops["builtins"] = lambda e: [M.freeze(deep(__import__("recap.types").types.RecapTypeRegistry().from_alias(a))).__repr__() for a in M.BUILTINS]
    return ops


def new(k):
    from recap.converters.avro import AvroConverter
    from recap.converters.json_schema import JSONSchemaConverter
    from recap.converters.protobuf import ProtobufConverter
    return {"avro": AvroConverter, "json": JSONSchemaConverter, "proto": ProtobufConverter}[k]()


# every table is read by a client of its own
TABLES = {"pg1": "postgresql://h/db/s/t", "pg2": "postgresql://h/db/s/t2", "mysql": "mysql://h/db/t", "snowflake": "snowflake://h/db/s/t", "csr": "http+csr://h/j", "hive": "thrift+hms://h/db/t", "bigquery": "bigquery:///p/d/t"}


def read_table(url):
    from recap.clients import create_client, parse_url
    conn, args = parse_url("schema", url, strict=False)
    with create_client(conn) as client:
        return client.schema(*args)


def universe():
    from google.cloud.bigquery import SchemaField
    from pymetastore.htypes import HListType, HPrimitiveType, PrimitiveCategory
    from pymetastore.metastore import HColumn, HTable
    c = lambda name, dt, **k: {"column_name": name, "is_nullable": "NO", "data_type": dt, "column_default": None} | k
    i = HPrimitiveType(PrimitiveCategory.INT)
    ht = HTable(database_name="db", name="t", table_type="MANAGED_TABLE", columns=[HColumn("a", i), HColumn("b", HListType(i))], partition_columns=[], storage=None, parameters={})
    pg = {"t": [c("a", "ARRAY", udt_name="_int4", attndims=1), c("b", "integer"), c("a ", "ARRAY", udt_name="_text", attndims=1), c("m", "USER-DEFINED", udt_name="mood", enum_values=["x", "y"])],
          "t2": [c("a", "ARRAY", udt_name="_bool", attndims=2), c("a ", "ARRAY", udt_name="_int8", attndims=1, is_nullable="YES")]}
    return {"postgresql": {"db": {"s": pg}}, "mysql": {"db": {"t": [c("a", "int", column_type="int unsigned"), c("b", "timestamp", datetime_precision=3)]}},
            "snowflake": {"db": {"s": {"t": [c("a", "NUMBER"), c("b", "TEXT", is_nullable="YES")]}}}, "csr": {"j-value": ("JSON", json.dumps(JS["j1"]))},
            "hive": {"db": {"t": (ht, [])}}, "bigquery": {"p": {"d": {"t": [SchemaField("a", "INTEGER"), SchemaField("b", "RECORD", mode="REPEATED", fields=[SchemaField("c", "STRING")])]}}}}


PARSE = [("schema", "http+csr://h/pre/t"), ("ls", "http+csr://h/pre/t"), ("schema", "postgresql://u:p@h/db/s/t?a=1&b=2"), ("ls", "postgresql://u:p@h/db/s"), ("schema", "mysql://h:1/db/t"), ("ls", "mysql://h:1/db/t"), ("ls", "bigquery:///p/d"), ("schema", "/no/such/dir/x.avsc")]


def with_docs(i):
    """A converter with schemas of its own; without any, the reference cannot be resolved."""
    from recap.converters.json_schema import JSONSchemaConverter
    from referencing import Registry, Resource, jsonschema
    if DOCS[i] is None:
        return JSONSchemaConverter(Registry())
    return JSONSchemaConverter(Registry().with_resource("https://a.b/n", Resource.from_contents(copy.deepcopy(DOCS[i]), jsonschema.DRAFT202012)))


OPS = mk_ops()
NAMES = list(OPS)
FEW = ["from_dict:d1", "avro:d1", "json again:d1", "proto:d1", "resolve:t", "table pg1", "read avro:a1", "read json again:j1", "read json again:j2", "read proto:p1", "postgresql:0", "postgresql:2"]
SHARED = ["to_dict:d2", "avro:d1", "json again:d1", "proto:d1", "nullable:d1", "resolve:t", "copy:d1", "equal"]
WIDE = SHARED + ["from_dict:d2", "json:d1", "proto:d2", "resolve:d1", "from_dict:d1", "to_dict:d1", "avro:d2", "json:d2", "longdict:d2", "nullable:d2", "resolve:d2", "copy:d2", "read avro:a1", "read json again:j1", "read json again:j2", "read proto:p1", "bigquery:0", "hive:0"]


def cases(tier):
    for i in range(len(NAMES)):
        for vandal in (False, True):
            yield {"pairs": i, "vandal": vandal, "depth": 2 if tier == "quick" else 3}
    for i in range(len(FEW)):
        for vandal in (False, True):
            yield {"few": i, "vandal": vandal, "depth": 3 if tier == "quick" else 4}
    pre = SHARED if tier == "quick" else WIDE
    for a in pre:
        for b in pre:
            if tier != "quick" or a != "to_dict:d2" and not (a in b and a.startswith("copy")):
                yield {"preempt": [a, b]}
    for a in TABLES:
        for b in TABLES:
            if tier != "quick" or a == b or a[:2] == b[:2] == "pg" or (a, b) in (("pg1", "mysql"), ("csr", "pg1"), ("hive", "csr")):
                yield {"preempt": ["table " + a, "table " + b]}


BASE = {}


def in_child(fn):
    """Run fn in a fork of this process, which has converted nothing."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                import traceback
                out = ("harness", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = pickle.loads(data)
    if out[0] != "ok":
        raise AssertionError(out[1])
    return out[1]


def start_worker(ctx):
    F.install()
    F.Universe.current = F.Universe(universe())
    import recap.types, recap.converters.avro, recap.converters.json_schema, recap.converters.protobuf, recap.converters.mysql, recap.converters.postgresql, recap.converters.snowflake, recap.converters.sqlite
    import recap.clients, recap.clients.confluent_registry, recap.clients.postgresql, recap.clients.mysql, recap.clients.bigquery, recap.clients.fs
    import pkgutil, importlib
    for m in pkgutil.iter_modules(recap.clients.__path__):
        try:
            importlib.import_module("recap.clients." + m.name)
        except ImportError:
            pass
    import recap.converters.bigquery, recap.converters.hive_metastore, google.cloud.bigquery, pymetastore.metastore, proto_schema_parser.generator
    BASE[None] = in_child(lambda: Env().snapshot())
    for n in NAMES:
        BASE[n] = in_child(lambda: result(OPS[n], Env())[0])


def result(op, env):
    r = observe(op, env)
    return (("ok", canon(r[1])) if r[0] == "ok" else r[:2], r[1] if r[0] == "ok" else None)


def overwrite(v):
    """The owner of a result changes it."""
    if hasattr(v, "type_"):
        for o in list(M.walk_obj(v)):
            o.doc = "overwritten"
            o.extra_attrs = {"overwritten": 1}
            o.logical = "over.written"
            for a in ("bits", "bytes_", "length"):
                if hasattr(o, a):
                    setattr(o, a, 7)
            if hasattr(o, "fields"):
                o.fields = []
            if hasattr(o, "types"):
                o.types = list(o.types) + [v]
    elif isinstance(v, dict):
        for k, x in list(v.items()):
            if k not in ("default", "symbols", "examples"):
                overwrite(x)
        v["overwritten"] = 1
    elif isinstance(v, list):
        for x in v:
            overwrite(x)


def sequence(seq, vandal):
    """-> (step, what, got) of the first difference, or None"""
    env = Env()
    before = BASE[None]
    for i, n in enumerate(seq):
        got, val = result(OPS[n], env)
        if got != BASE[n]:
            return (i, "result", n, repr(got), repr(BASE[n]))
        if vandal and not n.startswith(("copy", "resolve", "nullable")):     # these results are shared with their input, or cached in it
            overwrite(val)
    if not vandal and env.snapshot() != before:
        return (i, "inputs changed", n, repr(env.snapshot()), repr(before))
    return None


def run_case(case, ctx):
    if "preempt" in case:
        return preempt(case, ctx)
    if "pairs" in case:
        first, rest = NAMES[case["pairs"]], NAMES
    else:
        first, rest = FEW[case["few"]], FEW
    for n in range(case["depth"]):
        for r in itertools.product(rest, repeat=n):
            seq = (first,) + r
            ctx.count(states=1, traces=1, transitions=len(seq))
            bad = in_child(lambda: sequence(seq, case["vandal"]))
            ctx.outcome("sequence")
            if bad:
                ctx.fail(f"{'overwritten' if case['vandal'] else 'sequence'}:{bad[2]}:{bad[1]}".replace(" ", "-"), f"{seq}: step {bad[0]} ({bad[1]}): {bad[3]}\n  expected {bad[4]}")


# ------------------------------------------------------------- preemption
def preempt(case, ctx):
    a, b = case["preempt"]
    n = in_child(lambda: run_preempted(a, b, None)[2])
    ctx.outcome("lines", n)
    out = in_child(lambda: [(k,) + run_preempted(a, b, k)[:2] for k in range(n)])
    bad = 0
    for k, ra, rb in out:
        if rb is None:         # fewer lines than in the run that counted them (work done once per process, such as an import)
            ctx.outcome("not reached")
            if k * 10 < n * 8:
                raise AssertionError(f"{a}: line event {k} of {n} not reached")
            continue
        ctx.count(states=1, traces=1, transitions=2)
        for n_, r in ((a, ra), (b, rb)):
            if r != BASE[n_]:
                bad += 1
                if bad < 4:
                    ctx.fail(f"preempted:{a}:{b}:{n_}".replace(" ", "-"), f"{a} preempted before line event {k} by {b}: {n_} gave {r!r}\n  expected {BASE[n_]!r}")


def recap_dirs():
    import recap.types
    return os.path.dirname(recap.types.__file__) + os.sep


def run_preempted(a, b, k):
    env = Env()
    root = recap_dirs()
    st = {"n": 0, "rb": None}

    def local(frame, event, arg):
        if event == "line":
            if st["n"] == k:
                st["n"] += 1
                st["rb"] = result(OPS[b], env)[0]
            else:
                st["n"] += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None
    sys.settrace(glob)
    try:
        r = observe(OPS[a], env)
    finally:
        sys.settrace(None)
    ra = ("ok", canon(r[1])) if r[0] == "ok" else r[:2]
    return ra, st["rb"], st["n"]
