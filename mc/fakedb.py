"""Recording stand-ins for the database drivers.  install() must run before recap.clients.* modules
are imported.  SQL sent by the clients is executed by a real SQL engine (sqlite) on tables that mimic
information_schema / pg_catalog, so the check judges what a query returns, not how it is written."""
import json, os, re, sqlite3, types
from contextlib import contextmanager

real_sqlite_connect = sqlite3.connect
CALLS = []            # (driver, kwargs)
SCRATCH = os.environ.get("VERIF_SCRATCH") or "/tmp"

COLS = ["table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type",
        "character_octet_length", "character_maximum_length", "numeric_precision", "numeric_scale", "datetime_precision", "udt_name",
        "column_type"]
# information_schema.columns has other columns in another order in each database (names are lower case in PostgreSQL)
ORDER = {"postgresql": COLS,
         "mysql": [c.upper() for c in ("table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type",
                                       "character_maximum_length", "character_octet_length", "numeric_precision", "numeric_scale", "datetime_precision", "column_type",
                                       "extra", "column_comment")],
         "snowflake": [c.upper() for c in ("table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type",
                                           "character_maximum_length", "character_octet_length", "numeric_precision", "numeric_precision_radix", "numeric_scale",
                                           "datetime_precision", "udt_name", "is_identity", "comment")]}


class Refused(Exception):
    pass


class Universe:
    """catalog -> schema -> table -> list of column dicts (COLS keys plus attndims, enum_values)"""
    current = None

    def __init__(self, tree):
        self.tree = tree


class ArrayAgg:
    def __init__(self):
        self.v = []

    def step(self, x):
        self.v.append(x)

    def finalize(self):
        return json.dumps(self.v)


def build(tree, visible, order=COLS):
    """An in-memory SQL engine holding information_schema and pg_catalog."""
    c = real_sqlite_connect(":memory:")
    c.create_aggregate("array_agg", 1, ArrayAgg)
    c.execute("ATTACH ':memory:' AS information_schema")
    c.execute("ATTACH ':memory:' AS pg_catalog")
    x = c.execute
    x("CREATE TABLE information_schema.catalogs(catalog_name)")
    x("CREATE TABLE information_schema.databases(database_name)")
    x("CREATE TABLE information_schema.schemata(catalog_name, schema_name)")
    x("CREATE TABLE information_schema.tables(table_catalog, table_schema, table_name)")
    x("CREATE TABLE information_schema.columns(%s)" % ",".join(order))
    x("CREATE TABLE pg_catalog.pg_database(datname)")
    x("CREATE TABLE pg_catalog.pg_namespace(oid, nspname)")
    x("CREATE TABLE pg_catalog.pg_class(oid, relname, relnamespace)")
    x("CREATE TABLE pg_catalog.pg_attribute(attrelid, attname, attndims, atttypid, attnum)")
    x("CREATE TABLE pg_catalog.pg_type(oid, typtype, typname)")
    x("CREATE TABLE pg_catalog.pg_enum(enumtypid, enumlabel, enumsortorder)")
    oid = 100
    for cat in reversed(list(tree)):
        x("INSERT INTO information_schema.catalogs VALUES (?)", (cat,))
        x("INSERT INTO information_schema.databases VALUES (?)", (cat,))
        x("INSERT INTO pg_catalog.pg_database VALUES (?)", (cat,))
        if visible is not None and cat not in visible:
            continue
        for sch, tables in tree[cat].items():
            oid += 1
            ns = oid
            x("INSERT INTO information_schema.schemata VALUES (?,?)", (cat, sch))
            x("INSERT INTO pg_catalog.pg_namespace VALUES (?,?)", (ns, sch))
            for t, cols in tables.items():
                oid += 1
                rel = oid
                x("INSERT INTO information_schema.tables VALUES (?,?,?)", (cat, sch, t))
                x("INSERT INTO pg_catalog.pg_class VALUES (?,?,?)", (rel, t, ns))
                # stored in reverse, so that only ordinal_position gives the order
                for i, col in reversed(list(enumerate(cols))):
                    oid += 1
                    row = {"table_catalog": cat, "table_schema": sch, "table_name": t, "ordinal_position": i + 1} | col
                    x("INSERT INTO information_schema.columns VALUES (%s)" % ",".join("?" * len(order)),
                      tuple(row.get(k.lower()) for k in order))
                    x("INSERT INTO pg_catalog.pg_attribute VALUES (?,?,?,?,?)", (rel, col["column_name"], col.get("attndims", 0), oid, i + 1))
                    ev = col.get("enum_values")
                    x("INSERT INTO pg_catalog.pg_type VALUES (?,?,?)", (oid, "e" if ev is not None else "b", col.get("udt_name")))
                    if ev is not None:
                        # physical order differs from sort order
                        for k, lab in reversed(list(enumerate(ev))):
                            x("INSERT INTO pg_catalog.pg_enum VALUES (?,?,?)", (oid, lab, float(k)))
    return c


class Cursor:
    def __init__(self, conn):
        self.c = conn.db.cursor()
        self.conn = conn

    def execute(self, sql, params=()):
        sql = sql.replace("%s", "?").replace("information_schema.columns.*", "columns.*")
        sql = re.sub(r"(FROM|JOIN)\s+pg_(database|namespace|class|attribute|type|enum)\b", r"\1 pg_catalog.pg_\2", sql, flags=re.I)
        self.c.execute(sql, tuple(params or ()))

    @property
    def description(self):
        return self.c.description

    def _fix(self, r):
        if r is None:
            return None
        out = []
        for d, v in zip(self.c.description, r):
            if d[0].lower() == "enum_values" and isinstance(v, str):
                v = json.loads(v)
            out.append(v)
        return tuple(out)

    def fetchall(self):
        return [self._fix(r) for r in self.c.fetchall()]

    def fetchone(self):
        return self._fix(self.c.fetchone())

    def fetchmany(self, size=1):
        return [self._fix(r) for r in self.c.fetchmany(size)]

    def __iter__(self):
        return iter(self.fetchall())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class Conn:
    def __init__(self, db):
        self.db = db

    def cursor(self, *a, **k):
        return Cursor(self)

    def commit(self):
        pass

    rollback = close = commit

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def dbconn(driver, kwargs):
    CALLS.append((driver, dict(kwargs)))
    tree = Universe.current.tree[driver]
    if driver == "postgresql":
        db = kwargs.get("dbname") or kwargs.get("database")
        return Conn(build(tree, [db] if db else ["postgres"], ORDER[driver]))
    if driver == "snowflake":
        db = kwargs.get("database")
        return Conn(build(tree, [db] if db else [], ORDER[driver]))
    return Conn(build({"def": tree}, None, ORDER[driver]))


class BQRef:
    def __init__(self, *p):
        self.p = p

    def table(self, t):
        return BQRef(*self.p, t)


def bq_parts(ref):
    if isinstance(ref, BQRef):
        return ref.p
    return tuple(str(ref).split("."))


class BQClient:
    def __init__(self, *a, **k):
        CALLS.append(("bigquery", dict(k)))
        self.t = Universe.current.tree["bigquery"]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def list_projects(self, *a, **k):
        return [types.SimpleNamespace(project_id=p) for p in self.t]

    def list_datasets(self, project=None, *a, **k):
        return [types.SimpleNamespace(dataset_id=d) for d in self.t.get(project, {})]

    def dataset(self, dataset_id, project=None):
        return BQRef(project, dataset_id)

    def list_tables(self, ref, *a, **k):
        p, d = bq_parts(ref)
        return [types.SimpleNamespace(table_id=t) for t in self.t.get(p, {}).get(d, {})]

    def get_table(self, ref, *a, **k):
        p, d, t = bq_parts(ref)
        return types.SimpleNamespace(schema=self.t[p][d][t])


class CSR:
    def __init__(self, conf):
        CALLS.append(("csr", dict(conf)))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def get_subjects(self, *a, **k):
        return list(Universe.current.tree["csr"])

    def get_latest_version(self, subject, *a, **k):
        kind, text = Universe.current.tree["csr"][subject]
        return types.SimpleNamespace(subject=subject, version=1, schema_id=1,
                                     schema=types.SimpleNamespace(schema_str=text, schema_type=kind))


class HMSFake:
    def __init__(self):
        self.t = Universe.current.tree["hive"]

    def list_databases(self):
        return list(self.t)

    def list_tables(self, db):
        return list(self.t.get(db, {}))

    def get_table(self, db, table):
        return self.t[db][table][0]

    def get_table_stats(self, table, columns=None, *a):
        for db in self.t.values():
            for tb in db.values():
                if tb[0] is table:
                    return tb[1]
        return []


def install():
    import mysql.connector, psycopg2, snowflake.connector, google.cloud.bigquery as gbq
    import confluent_kafka.schema_registry as csr
    import confluent_kafka.schema_registry.schema_registry_client as csr2
    from pymetastore import metastore
    mysql.connector.connect = lambda **k: dbconn("mysql", k)
    psycopg2.connect = lambda *a, **k: dbconn("postgresql", k)
    snowflake.connector.connect = lambda **k: dbconn("snowflake", k)
    gbq.Client = BQClient
    csr.SchemaRegistryClient = CSR
    csr2.SchemaRegistryClient = CSR

    @contextmanager
    def hms(host="localhost", port=9083):
        CALLS.append(("hive", {"host": host, "port": port}))
        yield HMSFake()
    metastore.HMS.create = staticmethod(hms)

    def sq(database, *a, **k):
        CALLS.append(("sqlite", {"database": database} | k))
        p = str(database)
        if p.startswith("/") and not p.startswith(SCRATCH + "/"):
            raise sqlite3.OperationalError("outside scratch: " + p)
        return real_sqlite_connect(database, *a, **k)
    sqlite3.connect = sq


def fresh(urls):
    """Import the command layer anew under a configuration given the documented way (environment)."""
    import sys, importlib
    os.environ["RECAP_URLS"] = json.dumps(urls)
    for m in [m for m in sys.modules if m in ("recap.settings", "recap.clients", "recap.commands", "recap.cli")
              or m.startswith("recap.server")]:
        del sys.modules[m]
    import recap
    for a in ("settings", "clients", "commands", "cli", "server"):
        if hasattr(recap, a):
            delattr(recap, a)
    try:
        return importlib.import_module("recap.commands")
    finally:
        del os.environ["RECAP_URLS"]
