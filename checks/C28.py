"""Everything Recap can read can be described, stored over HTTP, served, read back and converted like the original."""
import importlib, itertools, json, os, zlib
from mc import terms as M
from mc.asgi import request
from mc.engine import Ctx, observe
from mc.jail import SCRATCH

PID = "C28"
RULE = ("the structs that the enumerations of C15-C21, C23 and C25 read from every source (tables of every column type, nullability, default, name, pair and nesting; every Avro, JSON Schema and "
        "Protobuf schema shape incl. reference graphs) are collected where the real client or converter returns them; each distinct one is written as a description, posted to the registry over HTTP, read "
        "back as latest and by version, parsed, compared with the original (references unfolded), described again, stored under an explicit version, and converted to all three formats, with the result of converting "
        "the original as the reference")
ASSUMPTIONS = ["one server process, local directory storage", "structs are told apart by their own attributes", "attribute values are JSON values (Decimal statistics of Hive tables are thrift objects: known finding)"]
CASE_TIMEOUT = 600
DYNAMIC = True
RECAP = "application/x-recap+json"
SOURCES = ["C15", "C16", "C17", "C18", "C19", "C20", "C21", "C23", "C25"]
# quick: cases of these sources that are left to the thorough run
HEAVY = {"C21": lambda c: c.get("depth", 0) > 1 or "recursion" in c or "names" in c and c["names"] != [1, 1], "C23": lambda c: "sites" in c or "order" in c or "embedded" in c or "graph" in c and (c["how"] != "preloaded" or c["graph"] != 1),
         "C25": lambda c: "pairs" in c and c["pairs"] % 12 or "histories" in c or "types" in c and c["types"] != 1 or "graph" in c and (c["graph"] != ["repeated", "repeated"] or c["nest"] != 0 or c["spell"])}
app = None
harvest = []


def BOUNDS(tier):
    return {"sources": SOURCES, "source bounds": "quick bounds of each source (structs with up to 16 nodes from tables, 10 from Hive, Avro, JSON Schema and Protobuf)" if tier == "quick" else "quick bounds of each source, all reference graphs"}


def cases(tier):
    out = []
    for s in SOURCES:
        m = importlib.import_module("checks." + s)
        for c in m.cases("quick"):
            if tier == "quick" and (s in HEAVY and HEAVY[s](c) or s <= "C21" and ("pairs" in c or "seq" in c or "isolation" in c or "order" in c)):
                continue
            if tier == "quick" and s == "C23" and "leaf" in c:
                c = dict(c, depth=0)
            if tier == "quick" and s == "C19" and "nest" in c:
                c = dict(c, depth=2)
            big = "recursion" in c or "names" in c or "graph" in c or "extras" in c
            parts = 2 if big else 1
            for k in range(parts):
                out.append((-parts, {"src": s, "case": c, "part": [k, parts], "nodes": 1000 if tier == "thorough" else 10 if s > "C19" else 16}))
    out.sort(key=lambda x: x[0])        # long ones first
    for _, c in out:
        yield c


def collect(cls, name):
    real = getattr(cls, name)

    def wrapped(self, *a, **k):
        r = real(self, *a, **k)
        harvest.append(r)
        return r
    setattr(cls, name, wrapped)


def start_worker(ctx):
    global app
    os.environ["RECAP_REGISTRY_STORAGE_URL"] = "file://" + os.path.join(SCRATCH, "c28-" + str(os.getpid()))
    from recap.server.app import app as a
    app = a
    for s in SOURCES:
        m = importlib.import_module("checks." + s)
        if hasattr(m, "start_worker"):
            m.start_worker(Ctx(s, "quick", 1))
    from recap.clients.bigquery import BigQueryClient
    from recap.clients.hive_metastore import HiveMetastoreClient
    from recap.clients.mysql import MysqlClient
    from recap.clients.postgresql import PostgresqlClient
    from recap.clients.snowflake import SnowflakeClient
    from recap.clients.sqlite import SQLiteClient
    from recap.converters.avro import AvroConverter
    from recap.converters.json_schema import JSONSchemaConverter
    from recap.converters.protobuf import ProtobufConverter
    for c in (BigQueryClient, HiveMetastoreClient, MysqlClient, PostgresqlClient, SnowflakeClient, SQLiteClient):
        collect(c, "schema")
    for c in (AvroConverter, JSONSchemaConverter, ProtobufConverter):
        collect(c, "to_recap")


SEEN = set()
COUNT = itertools.count()


def unfold(o, depth=6):
    """What a type means: attributes and parts, with references replaced by what they refer to (the name a definition has where it is defined is not part of what it defines)."""
    name = o.extra_attrs.get("name")
    if type(o).__name__ == "ProxyType":
        o = o.resolve()
    n = nameless(M.snap(o, own=True))
    kids = [getattr(o, a) for a in ("keys", "values") if hasattr(getattr(o, a, None), "type_")] + [c for a in ("fields", "types") for c in getattr(o, a, None) or []]
    return (name, n[:3] + (None,) + n[4:], tuple(unfold(c, depth - 1) for c in kids) if depth else ())


def meaning(o):
    return M.snap(o, True), unfold(o)


def converted(o):
    from proto_schema_parser.generator import Generator
    from recap.converters.avro import AvroConverter
    from recap.converters.json_schema import JSONSchemaConverter
    from recap.converters.protobuf import ProtobufConverter
    out = {}
    for n, f in (("avro", lambda: AvroConverter().from_recap(o)), ("json", lambda: JSONSchemaConverter().from_recap(o)), ("protobuf", lambda: Generator().generate(ProtobufConverter().from_recap(o)))):
        r = observe(f)
        out[n] = r if r[0] == "ok" else r[:2]
    return out


def run_case(case, ctx):
    m = importlib.import_module("checks." + case["src"])
    del harvest[:]
    m.run_case(case["case"], Ctx(case["src"], "quick", 1))
    structs = list(harvest)
    del harvest[:]
    for s in structs:
        # a struct without aliases is no more than its fields' types and names
        keys = {M.snap(s)} if any(o.alias for o in M.walk_obj(s)) else {x for f in s.fields for x in (coarse(M.snap(f)) if case["nodes"] < 1000 else nameless(M.snap(f)), f.extra_attrs.get("name"))}
        if keys and keys <= SEEN:
            continue
        SEEN.update(keys)
        if sum(1 for _ in M.walk_obj(s)) > case["nodes"]:
            continue
        k, n = case["part"]
        if n > 1 and zlib.crc32(repr(M.snap(s)).encode()) % n != k:
            continue
        store(ctx, case["src"], s)


def coarse(n):
    """The type of a column, apart from the text of its comment and default (C01 has those)."""
    return n[:4] + (n[4] and "doc", tuple(a for a in n[5] if a[0] not in ("name", "default")), "default" in dict(n[5])) + tuple(coarse(k) for k in n[6])


def nameless(n):
    return n[:5] + (tuple(a for a in n[5] if a[0] != "name"),) + n[6:]


def store(ctx, src, s):
    from recap.types import from_dict, to_dict
    ctx.count(states=1, traces=1, transitions=6)
    ctx.outcome(src)
    want = observe(meaning, s)
    if want[0] != "ok":
        ctx.fail(f"{src}:unresolved", f"{M.snap(s)}: {want}")
        return
    d = observe(to_dict, s)
    if d[0] != "ok" or not isinstance(d[1], dict):
        ctx.fail(f"{src}:describe", f"{M.snap(s)}: {d}")
        return
    body = observe(json.dumps, d[1], allow_nan=False)
    if body[0] != "ok":
        dec = any(type(v).__module__.startswith("pymetastore") for f in s.fields for v in f.extra_attrs.values())
        ctx.fail(f"{src}:json" + (":decimal-statistics" if dec else ""), f"{M.snap(s)}: {body}")
        return
    n = next(COUNT)
    name = f"t{os.getpid()}-{n // 8}"           # eight versions each
    r = request(app, "POST", f"/registry/{name}", body=body[1].encode(), ctype=RECAP)
    if r.status != 200:
        ctx.fail(f"{src}:post", f"{body[1]}: {r.brief()}")
        return
    v = r.json()
    for path in (f"/registry/{name}", f"/registry/{name}/versions/{v}")[n % 2:n % 2 + 1]:
        g = request(app, "GET", path)
        if g.status != 200 or g.json()[1] != v:
            ctx.fail(f"{src}:get", f"{path}: {body[1]}: {g.brief()}")
            return
        back = observe(from_dict, g.json()[0])
        if back[0] != "ok":
            ctx.fail(f"{src}:parse", f"{body[1]} -> {g.body}: {back}")
            return
        got = observe(meaning, back[1])
        if got != want:
            ctx.fail(f"{src}:differs", f"{body[1]} -> {g.body}:\n got {got}\nwant {want}")
            return
    again = observe(to_dict, back[1])
    if again != d:
        ctx.fail(f"{src}:description changed".replace(" ", "-"), f"{d}\n -> {again}")
    a, b = converted(s), converted(back[1])
    for f in a:
        ctx.outcome(f"{f} {a[f][0]}")
        if a[f] != b[f]:
            ctx.fail(f"{src}:{f}", f"{M.snap(s)}\n original: {a[f]}\n stored:   {b[f]}")
