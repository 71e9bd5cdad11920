"""Snowflake columns -> Recap fields, through the real client and SQL."""
from mc import fakedb as F
from mc.dbcheck import DB

PID = "C17"
RULE = ("every Snowflake type and synonym x length / precision / scale / fractional-second boundaries, x nullability x default x column "
        "name; all ordered pairs of column types; all orders of columns; all sequences of tables read over one and over several "
        "connections; decoy tables of the same name elsewhere; unsupported types.  Expected fields come from an independent table")
ASSUMPTIONS = ["information_schema has the columns and contents documented by Snowflake; the SQL is executed by sqlite on a mimicked catalog"]


def cols():
    out = []

    def add(dt, term, label="", **a):
        out.append((f"{dt}{label}", {"data_type": dt} | a, term))
    for dt in ("float", "float4", "float8", "double", "double precision", "real"):
        add(dt, {"k": "float", "bits": 64})
    add("boolean", {"k": "bool"})
    for dt in ("number", "decimal", "numeric", "int", "integer", "bigint", "smallint", "tinyint", "byteint"):
        for p, s in ((38, 0), (10, 2), (1, 0), (38, 37), (1, 1), (None, None), (5, None)):
            add(dt, {"k": "bytes", "bytes": 16, "variable": False, "logical": "build.recap.Decimal",
                     "x": {"precision": 38 if p is None else p, "scale": s or 0}}, f":{p},{s}", numeric_precision=p, numeric_scale=s)
    for dt in ("number(10,2)", "decimal(5)", "numeric(38,37)"):
        add(dt, {"k": "bytes", "bytes": 16, "variable": False, "logical": "build.recap.Decimal", "x": {"precision": 7, "scale": 3}},
            numeric_precision=7, numeric_scale=3)
    for dt in ("varchar", "string", "text", "nvarchar", "nvarchar2", "char varying", "nchar varying"):
        for n in (1, 255, 16777216, None):
            add(dt, {"k": "string", "bytes": 16777216 if n is None else n}, f":{n}", character_octet_length=n, character_maximum_length=n)
    for dt in ("char", "character", "nchar"):
        for n in (1, 255, 16777216, None):
            add(dt, {"k": "string", "bytes": 1 if n is None else n}, f":{n}", character_octet_length=n)
    for dt in ("binary", "varbinary"):
        for n in (1, 255, 8388608, None):
            add(dt, {"k": "bytes", "bytes": 8388608 if n is None else n}, f":{n}", character_octet_length=n)
    add("date", {"k": "int", "bits": 32, "logical": "build.recap.Date", "x": {"unit": "day"}})
    for base, bits, log in (("timestamp", 64, "Timestamp"), ("timestamp_ntz", 64, "Timestamp"), ("timestamp_ltz", 64, "Timestamp"), ("timestamp_tz", 64, "Timestamp"),
                            ("datetime", 64, "Timestamp"), ("time", 32, "Time")):
        for p in [None] + list(range(10)):
            u = "nanosecond" if p is None or p > 6 else "second" if p == 0 else "millisecond" if p <= 3 else "microsecond"
            for name in [base] if p is None else [f"{base}({p})", f"{base}( {p} )"]:
                add(name, {"k": "int", "bits": bits, "logical": "build.recap." + log, "x": {"unit": u}})
    for dt in ("variant", "object", "array", "geography", "geometry", "vector", "unknown", "map"):
        add(dt, None)
    return out


db = None


def start_worker(ctx):
    global db
    F.install()
    from recap.clients.snowflake import SnowflakeClient
    db = DB("snowflake", SnowflakeClient, cols())


def BOUNDS(tier):
    return {"columns": len(cols()), "pairs": "one per type" if tier == "quick" else "all", "sequence": 2 if tier == "quick" else 3}


def cases(tier):
    return DB("snowflake", None, cols()).cases(tier)


def run_case(case, ctx):
    db.run_case(case, ctx)
