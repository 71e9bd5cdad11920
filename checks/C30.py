"""Reads of a source that fails at any point: all failure points, one and two faults, through all entry points."""
import builtins, gc, importlib, io, itertools, json, os, pathlib, sqlite3, types, weakref
from urllib.parse import quote
from mc import fakedb as F
from mc import terms as M
from mc.asgi import request
from mc.jail import SCRATCH

PID = "C30"
RULE = ("every operation on every kind of source (listings at every level, schemas, statistics, files) x every entry point x every call to the driver (or the file "
        "system) failing, alone and together with every later call x every class of error, followed by the same operation without faults; sources of every size in a list "
        "around the usual page sizes; code of the user that fails while it holds a client")
ASSUMPTIONS = ["drivers are stand-ins that fail when told to; their calls are the failure points", "a connection is released when it is closed (the `with` of PostgreSQL and SQLite connections only ends the transaction)", "a retry that succeeds is accepted: the answer must be complete or a failure"]
CASE_TIMEOUT = 300
SECRET = "s3cr3t"


class Plan:
    n = 0                # calls so far
    at = ()              # calls that fail
    exc = None
    seen = []            # labels of calls
    opened = []          # (kind, weakref, state) of everything opened


def step(label):
    k = Plan.n
    Plan.n += 1
    Plan.seen.append(label)
    if k in Plan.at:
        raise Plan.exc()


class Rel:
    """What is known about one connection; kept when the connection is gone."""
    def __init__(self, kind):
        self.kind, self.closed, self.ref = kind, False, None

    def held(self):
        return not self.closed and (self.kind != "file" or self.ref() is not None)


class Proxy:
    """A driver object, every call of which may fail."""

    def __init__(self, obj, label, rel=None, exit_closes=False, parent=None):
        self.__dict__.update(_o=obj, _l=label, _r=rel, _x=exit_closes, _p=parent or rel)
        if rel is not None:
            rel.ref = weakref.ref(self)
            Plan.opened.append(rel)

    def __getattr__(self, name):
        v = getattr(self._o, name)
        label = f"{self._l}.{name}"
        if not callable(v):
            step(label)
            return v

        def call(*a, **k):
            if name == "close" and self._r is not None:
                self._r.closed = True           # even if it fails
            step(label)
            if name != "close" and self._p is not None and self._p.closed:
                raise ConnectionError(f"{label}: closed")
            out = v(*a, **k)
            if name in ("cursor", "execute") and out is not None:
                return self if out is self._o else Proxy(out, self._l + ".cursor", parent=self._p)
            if name.startswith("list_") and self._l == "bigquery":
                return pages(out, label)
            return out
        return call

    def __setattr__(self, name, v):
        setattr(self._o, name, v)

    def __enter__(self):
        r = self._o.__enter__()
        return self if r is self._o else r

    def __exit__(self, *a):
        if self._r is not None and self._x:
            self._r.closed = True
        step(self._l + ".__exit__")
        return self._o.__exit__(*a)

    def __iter__(self):
        step(self._l + ".iter")
        return iter(self._o)


def pages(items, label):
    for i, x in enumerate(items):
        if i % 2 == 0:
            step(f"{label}[{i}]")
        yield x


def install():
    F.install()
    import mysql.connector, psycopg2, snowflake.connector, google.cloud.bigquery as gbq
    import confluent_kafka.schema_registry as csr
    import confluent_kafka.schema_registry.schema_registry_client as csr2
    from pymetastore import metastore

    def conn(make, kind, exit_closes):
        def connect(*a, **k):
            step(kind + ".connect")
            return Proxy(make(*a, **k), kind, Rel(kind), exit_closes)
        return connect
    mysql.connector.connect = conn(mysql.connector.connect, "mysql", True)
    psycopg2.connect = conn(psycopg2.connect, "postgresql", False)
    snowflake.connector.connect = conn(snowflake.connector.connect, "snowflake", True)
    gbq.Client = conn(F.BQClient, "bigquery", True)
    csr.SchemaRegistryClient = csr2.SchemaRegistryClient = conn(F.CSR, "csr", True)
    sqlite3.connect = conn(sqlite3.connect, "sqlite", False)

    class HMS:
        def __init__(self, host="localhost", port=9083):
            step("hive.connect")
            self.p = Proxy(F.HMSFake(), "hive", Rel("hive"), True)

        def __enter__(self):
            return self.p

        def __exit__(self, *a):
            self.p._r.closed = True
            step("hive.close")
            return False
    metastore.HMS.create = staticmethod(HMS)
    scratch = W["d"]
    real_open, real_list, real_scan = io.open, os.listdir, os.scandir

    def inside(p):
        return isinstance(p, (str, pathlib.PurePath)) and str(p).startswith(scratch)

    def fopen(file, *a, **k):
        if not inside(file):
            return real_open(file, *a, **k)
        step("file.open")
        return Proxy(real_open(file, *a, **k), "file", Rel("file"), True)
    io.open = builtins.open = fopen

    def flist(path="."):
        if inside(path):
            step("file.listdir")
        return real_list(path)

    def fscan(path="."):
        if inside(path):
            step("file.scandir")
        return real_scan(path)
    os.listdir, os.scandir = flist, fscan


W = {}


def col(name, dt, **k):
    return {"column_name": name, "is_nullable": "NO", "data_type": dt, "column_default": None} | k


def universe():
    from google.cloud.bigquery import SchemaField
    from pymetastore.htypes import HPrimitiveType, PrimitiveCategory as PC
    from pymetastore.metastore import HColumn, HTable
    from pymetastore.stats import ColumnStats, LongTypeStats, StringTypeStats
    ht = HTable(database_name="db", name="t", table_type="MANAGED_TABLE", columns=[HColumn("a", HPrimitiveType(PC.INT)), HColumn("b", HPrimitiveType(PC.STRING))], partition_columns=[], storage=None, parameters={})
    stats = [ColumnStats(True, "db", "t", "a", "int", LongTypeStats(7, 3, 1, 5)), ColumnStats(True, "db", "t", "b", "string", StringTypeStats(4, 1.5, 2, 1))]
    pg = {"t": [col("a", "ARRAY", udt_name="_int4", attndims=1), col("b", "integer"), col("m", "USER-DEFINED", udt_name="mood", enum_values=["x", "y"])], "t2": [col("z", "text")], "t3": [col("z", "text")]}
    my = {"t": [col("a", "int", column_type="int unsigned"), col("b", "timestamp", datetime_precision=3)], "t2": [col("b", "int")]}
    sf = {"t": [col("a", "NUMBER"), col("b", "TEXT", is_nullable="YES")], "t2": [col("a", "NUMBER")]}
    return {"postgresql": {"db": {"s": pg, "s2": {}}, "db2": {}}, "mysql": {"db": my, "db2": {}}, "snowflake": {"db": {"s": sf, "s2": {}}, "db2": {}},
            "csr": {"j-value": ("JSON", json.dumps({"type": "object", "properties": {"x": {"type": "integer"}}})), "k-value": ("AVRO", '{"type": "record", "name": "r", "fields": [{"name": "a", "type": "int"}]}')},
            "hive": {"db": {"t": (ht, stats), "t2": (ht, [])}, "db2": {}},
            "bigquery": {"p": {"d": {"t": [SchemaField("a", "INTEGER"), SchemaField("b", "RECORD", mode="REPEATED", fields=[SchemaField("c", "STRING")])], "t2": [], "t3": []}, "d2": {}, "d3": {}}, "p2": {}, "p3": {}}}


def start_worker(ctx, warm=True):
    d = os.path.join(SCRATCH, f"c30-{os.getpid()}")
    os.makedirs(d + "/empty")
    W["d"] = d
    open(d + "/a.avsc", "w").write('{"type": "record", "name": "r", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": "string"}]}')
    open(d + "/j.json", "w").write('{"type": "object", "properties": {"a": {"type": "integer"}}}')
    open(d + "/p.proto", "w").write('syntax = "proto3"; message M { int32 a = 1; }')
    os.makedirs(d + "/sub")
    c = F.real_sqlite_connect(d + "/x.db")
    c.execute("CREATE TABLE t (a INTEGER NOT NULL, b VARCHAR(5))")
    c.execute("CREATE TABLE t2 (a INTEGER)")
    c.commit()
    c.close()
    install()
    F.Universe.current = F.Universe(universe())
    W["conf"] = ["file:///", f"sqlite:///{d}/x.db"] + [f"{s}://u:{SECRET}@{h}" for s, h in (("postgresql", "h/db"), ("mysql", "h"), ("snowflake", "h"), ("http+csr", "h"), ("thrift+hms", "h"))] + ["bigquery://"]
    W["cmd"] = F.fresh(W["conf"])
    W["cli"] = importlib.import_module("recap.cli")
    W["app"] = importlib.import_module("recap.server.app").app
    W["clients"] = importlib.import_module("recap.clients")
    for _, method, url in OPS if warm else (): # imports
        run("library", method, url.replace("{d}", d))
    gc.collect()
    gc.freeze()                              # what is collected later was made later


# (source, method, url; {d} is the scratch directory)
OPS = [("postgresql", "ls", "postgresql://h/db"), ("postgresql", "ls", "postgresql://h/db/s"), ("postgresql", "schema", "postgresql://h/db/s/t"), ("postgresql", "ls", "postgresql://h"),
       ("mysql", "ls", "mysql://h"), ("mysql", "ls", "mysql://h/db"), ("mysql", "schema", "mysql://h/db/t"),
       ("snowflake", "ls", "snowflake://h"), ("snowflake", "ls", "snowflake://h/db"), ("snowflake", "ls", "snowflake://h/db/s"), ("snowflake", "schema", "snowflake://h/db/s/t"),
       ("sqlite", "ls", "sqlite:///{d}/x.db"), ("sqlite", "schema", "sqlite:///{d}/x.db/t"),
       ("bigquery", "ls", "bigquery://"), ("bigquery", "ls", "bigquery:///p"), ("bigquery", "ls", "bigquery:///p/d"), ("bigquery", "schema", "bigquery:///p/d/t"),
       ("hive", "ls", "thrift+hms://h"), ("hive", "ls", "thrift+hms://h/db"), ("hive", "schema", "thrift+hms://h/db/t"), ("hive", "schema", "thrift+hms://h/db/t?include_stats=1"),
       ("csr", "ls", "http+csr://h"), ("csr", "schema", "http+csr://h/j"), ("csr", "schema", "http+csr://h/k-value"),
       ("file", "ls", "file://{d}"), ("file", "schema", "file://{d}/a.avsc"), ("file", "schema", "file://{d}/j.json"), ("file", "schema", "file://{d}/p.proto"), ("file", "schema", "{d}/a.avsc"), ("file", "ls", "{d}")]
# the root of PostgreSQL isn't in the configuration, which has /db
ENTRIES = ["library", "library strict", "client", "cli", "http"]


def errors(kind):
    import mysql.connector, psycopg2, snowflake.connector.errors as sfe
    from google.api_core.exceptions import NotFound, ServiceUnavailable
    from confluent_kafka.schema_registry.error import SchemaRegistryError
    own = {"postgresql": [psycopg2.OperationalError, psycopg2.ProgrammingError], "mysql": [mysql.connector.errors.InterfaceError, mysql.connector.errors.ProgrammingError],
           "snowflake": [sfe.OperationalError, sfe.ProgrammingError], "sqlite": [sqlite3.OperationalError, sqlite3.DatabaseError],
           "bigquery": [lambda: NotFound("gone"), lambda: ServiceUnavailable("later")], "csr": [lambda: SchemaRegistryError(404, 40401, "Subject not found"), lambda: SchemaRegistryError(503, 50001, "down")],
           "hive": hive_errors(), "file": [lambda: PermissionError(13, "denied"), lambda: FileNotFoundError(2, "gone"), lambda: IsADirectoryError(21, "dir")]}[kind]
    return own + [lambda: ConnectionResetError("reset by peer"), lambda: TimeoutError("timed out"), lambda: KeyError("x"), lambda: ValueError(f"cannot use postgresql://u:{SECRET}@h"), lambda: StopIteration(), lambda: MemoryError()]


def hive_errors():
    from thrift.Thrift import TApplicationException
    from pymetastore.hive_metastore.ttypes import MetaException, NoSuchObjectException
    return [lambda: NoSuchObjectException("gone"), lambda: MetaException("meta"), lambda: TApplicationException(5, "missing")]


def BOUNDS(tier):
    return {"operations": len(OPS), "entry points": len(ENTRIES), "faults": "1, and 2 with connection resets" if tier == "quick" else "1 and 2, every class", "sizes": [s for s in SIZES if tier != "quick" or s <= 2001]}


SIZES = [0, 1, 2, 3, 9, 10, 11, 49, 50, 51, 99, 100, 101, 199, 200, 201, 255, 256, 257, 499, 500, 501, 999, 1000, 1001, 1024, 1025, 1999, 2001, 5001, 10001]


def cases(tier):
    for i in range(len(OPS)):
        for e in ENTRIES:
            yield {"op": i, "entry": e, "all": tier != "quick"}
    for s in SIZES if tier != "quick" else [s for s in SIZES if s <= 2001]:
        yield {"size": s}


def canon(r):
    return json.dumps(r, sort_keys=False)


def listing(r):
    return canon(sorted(r) if isinstance(r, list) else r)


class Users(Exception):
    """An error of the code that uses a client."""


def perform(entry, method, url, body=None):
    """-> ("ok", canonical answer) or ("err", what)"""
    try:
        if entry.startswith("library"):
            f = W["cmd"].ls if method == "ls" else W["cmd"].schema
            return ("ok", listing(f(url, strict=entry.endswith("strict"))))
        if entry == "fields":
            conn, args = W["clients"].parse_url(method, url, strict=False)
            with W["clients"].create_client(conn) as c:
                return ("ok", json.dumps([f.extra_attrs.get("name") for f in c.schema(*args).fields]))
        if entry == "client":
            from recap.types import to_dict
            conn, args = W["clients"].parse_url(method, url, strict=False)
            with W["clients"].create_client(conn) as c:
                r = getattr(c, method)(*args)
                if body:
                    body()
            return ("ok", listing(r if method == "ls" else to_dict(r)))
        if entry == "cli":
            from typer.testing import CliRunner
            r = CliRunner().invoke(W["cli"].app, [method, url])
            if r.exit_code != 0:
                if r.stdout.strip() and not isinstance(r.exception, (Exception, SystemExit)):
                    return ("bad", f"exit code {r.exit_code} after writing {r.stdout!r}")
                return ("err", f"exit code {r.exit_code}")
            if not r.stdout.strip() and method == "ls":
                return ("ok", listing([]))
            try:
                return ("ok", listing(json.loads(r.stdout)))
            except ValueError:
                return ("bad", f"exit code 0 after writing {r.stdout[:200]!r}")
        r = request(W["app"], "GET", f"/gateway/{method}/{quote(url, safe='/:@')}")
        if SECRET.encode() in r.body or any(SECRET in v for v in r.headers.values()):
            return ("bad", f"the response has a configured password: {r.body!r}")
        if r.status != 200:
            return ("err", f"HTTP {r.status}") if r.status >= 400 else ("bad", f"HTTP {r.status}")
        try:
            return ("ok", listing(r.json()))
        except ValueError:
            return ("bad", f"HTTP 200 with {r.body[:200]!r}")
    except (Exception, MemoryError) as e:
        return ("err", type(e).__name__)


def run(entry, method, url, at=(), exc=None, body=None):
    Plan.n, Plan.at, Plan.exc, Plan.seen, Plan.opened = 0, frozenset(at), exc, [], []
    try:
        r = perform(entry, method, url, body)
    finally:
        Plan.at = ()
    if any(x.held() for x in Plan.opened):
        gc.collect()
    held = [x.kind for x in Plan.opened if x.held()]
    return r, held, list(Plan.seen)


def http_url(u):
    # include_stats would be a parameter of the request
    return "?" in u


def run_case(case, ctx):
    if "size" in case:
        return sizes(case["size"], ctx)
    kind, method, url = OPS[case["op"]]
    url = url.replace("{d}", W["d"])
    entry = case["entry"]
    if url == "postgresql://h" and entry in ("library strict", "http") or entry in ("library strict", "http") and url.startswith("/") or entry == "http" and "?" in url:
        return
    want, held, calls = run("library", method, url)
    if want[0] != "ok" or held:
        ctx.fail(f"plain:{kind}", f"{method} {url}: {want}, held {held}")
        return
    got, held, calls = run(entry, method, url)
    ctx.count(states=1, traces=1, transitions=1)
    if got != want or held:
        ctx.fail(f"plain:{kind}:{entry}", f"{entry}: {method} {url}: {got}, not released: {held}\nwant {want}")
        return
    n = len(calls)
    ctx.outcome("failure points", n)

    def judge(at, exc, what):
        got, held, seen = run(entry, method, url, at, exc)
        again, held2, _ = run(entry, method, url)
        ctx.count(states=1, traces=1, transitions=2)
        ctx.outcome(got[0])
        where = f"{entry}: {method} {url}: {what} (call {', '.join(f'{k} {calls[k] if k < n else seen[k] if k < len(seen) else chr(63)}' for k in at)} fails with {exc()!r})"
        key = f"{kind}:{method}:{entry.replace(' ', '-')}"
        if got[0] != "err" and got != want:
            ctx.fail("answer:" + key, f"{where}: got {got}\ncomplete answer {want}")
        if held:
            ctx.fail("released:" + key, f"{where}: not released: {held}")
        if again != want or held2:
            ctx.fail("afterwards:" + key, f"{where}, then without faults: {again}, not released: {held2}\nwant {want}")
        return seen
    es = errors(kind)
    reset = lambda: ConnectionResetError("reset by peer")
    for k in range(n):
        for e in es:
            seen = judge((k,), e, "one fault")
        # everything that is still called after the first fault, failing too
        for e in es if case["all"] else [reset]:
            seen = judge((k,), e, "one fault")
            for j in range(k + 1, len(seen)):
                judge((k, j), e, "two faults")
    if entry == "client":
        # the user's own code fails while it holds a client: the error is the user's, whatever happens on release
        for e in es + [lambda: Users("mine"), lambda: KeyError("x"), lambda: FileNotFoundError(2, "gone"), lambda: AttributeError("a")]:
            mine = e()
            if isinstance(mine, StopIteration) or type(mine).__setattr__ is not BaseException.__setattr__:       # Thrift's errors cannot be raised through contextlib
                continue

            def boom():
                raise mine
            for at in [()] + [(k,) for k in range(n) if calls[k].endswith(("__exit__", "close"))]:
                got, held, seen = run("client", method, url, at, reset, body=boom)
                ctx.count(states=1, traces=1, transitions=1)
                if not at and got != ("err", type(mine).__name__) or got[0] != "err" or held:
                    ctx.fail(f"user:{kind}", f"{method} {url}: the code using the client raised {mine!r}: {got}, not released: {held}")


def sizes(n, ctx):
    """Everything there is, is listed, whatever its size."""
    from google.cloud.bigquery import SchemaField
    from pymetastore.htypes import HPrimitiveType, PrimitiveCategory as PC
    from pymetastore.metastore import HColumn, HTable
    names = [f"n{i}" for i in range(n)]
    full = n <= 2001
    rows = [col(x, "int") for x in names]
    ht = HTable(database_name="db", name="t", table_type="MANAGED_TABLE", columns=[HColumn(x, HPrimitiveType(PC.INT)) for x in names], partition_columns=[], storage=None, parameters={})
    u = universe()
    u["mysql"] = {"db": {x: [] for x in names}, "wide": {"t": rows}} | {x: {} for x in names}
    u["postgresql"] = {"db": {"s": {x: [] for x in names}, "wide": {"t": [r | {"data_type": "integer"} for r in rows]}} | {x: {} for x in names}} | {x: {} for x in names}
    u["snowflake"] = {"db": {"s": {x: [] for x in names}, "wide": {"t": rows}} | {x: {} for x in names}} | {x: {} for x in names}
    u["csr"] = {x: ("AVRO", "{}") for x in names} | {"a-value": ("AVRO", json.dumps({"type": "record", "name": "r", "fields": [{"name": x, "type": "int"} for x in names]})),
                                                     "j-value": ("JSON", json.dumps({"type": "object", "properties": {x: {"type": "integer"} for x in names}})),
                                                     "p-value": ("PROTOBUF", 'syntax = "proto3"; message M { %s }' % " ".join(f"int32 {x} = {i + 1 if i < 18999 else i + 1001};" for i, x in enumerate(names)))}
    u["hive"] = {"db": {x: (ht, []) for x in names}, "wide": {"t": (ht, [])}} | {x: {} for x in names}
    u["bigquery"] = {"p": {"d": {x: [] for x in names}, "wide": {"t": [SchemaField(x, "INTEGER", mode="REQUIRED") for x in names]}} | {x: {} for x in names}} | {x: {} for x in names}
    F.Universe.current = F.Universe(u)
    try:
        exp = [("mysql://h", names + ["db", "wide"]), ("mysql://h/db", names), ("postgresql://h/db", names + ["s", "wide"]), ("postgresql://h", names + ["db"]), ("postgresql://h/db/s", names),
               ("snowflake://h", names + ["db"]), ("snowflake://h/db", names + ["s", "wide"]), ("snowflake://h/db/s", names), ("http+csr://h", names + ["a-value", "j-value", "p-value"]),
               ("thrift+hms://h", names + ["db", "wide"]), ("thrift+hms://h/db", names), ("bigquery://", names + ["p"]), ("bigquery:///p", names + ["d", "wide"]), ("bigquery:///p/d", names)]
        for url, want in exp:
            got, held, _ = run("library", "ls", url)
            ctx.count(states=1, traces=1, transitions=1)
            if got != ("ok", canon(sorted(want))):
                ctx.fail(f"complete:{url.partition(':')[0]}:ls", f"ls {url} of {len(want)} children: {got[0]} {str(got[1])[:80]} ({len(json.loads(got[1])) if got[0] == 'ok' else 0} children)")
        from recap.types import to_dict
        tables = ["mysql://h/wide/t", "postgresql://h/db/wide/t", "snowflake://h/db/wide/t", "thrift+hms://h/wide/t", "bigquery:///p/wide/t"] + (["http+csr://h/a", "http+csr://h/j"] + (["http+csr://h/p"] if n <= 501 else []) if full else [])
        if n and n <= 1999:
            c = F.real_sqlite_connect(W["d"] + f"/w{n}.db")
            c.execute("PRAGMA synchronous = OFF")
            c.execute("CREATE TABLE t (%s)" % ", ".join(x + " INTEGER" for x in names))
            c.commit()
            c.close()
            tables.append(f"sqlite:///{W['d']}/w{n}.db/t")
            c = F.real_sqlite_connect(W["d"] + f"/l{n}.db")
            c.execute("PRAGMA synchronous = OFF")
            c.execute("BEGIN")
            for x in names:
                c.execute(f"CREATE TABLE {x} (a)")
            c.commit()
            c.close()
            got, held, _ = run("library", "ls", f"sqlite:///{W['d']}/l{n}.db")
            ctx.count(states=1, traces=1, transitions=1)
            if got != ("ok", canon(sorted(names))):
                ctx.fail("complete:sqlite:ls", f"{n} tables: {got[0]} {str(got[1])[:80]}")
        for url in tables:
            got, held, _ = run("fields", "schema", url)          # describing thousands of fields takes long
            ctx.count(states=1, traces=1, transitions=1)
            fields = json.loads(got[1]) if got[0] == "ok" else None
            if fields != names:
                ctx.fail(f"complete:{url.partition(':')[0]}:schema", f"schema {url} of {n} columns: {got[0]} {str(got[1])[:80]} ({len(fields or [])} columns)")
        if full:
            d = f"{W['d']}/dir{n}"
            os.mkdir(d)
            for x in names:
                os.mkdir(f"{d}/{x}")
            got, held, _ = run("library", "ls", "file://" + d)
            ctx.count(states=1, traces=1, transitions=1)
            if got != ("ok", canon(sorted(names))):
                ctx.fail("complete:file:ls", f"{n} entries: {got[0]} {str(got[1])[:80]}")
        ctx.outcome("sizes")
    finally:
        F.Universe.current = F.Universe(universe())
