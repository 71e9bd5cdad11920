"""MySQL columns -> Recap fields, through the real client and SQL."""
import itertools
from mc import fakedb as F
from mc.dbcheck import DB

PID = "C15"
RULE = ("every MySQL type x length / precision / scale boundaries x signedness, x nullability x default x column name; all ordered pairs of "
        "column types; all orders of columns; all sequences of tables read over one and over several connections; decoy tables of the "
        "same name in other schemas; unsupported types alone and next to supported ones.  Expected fields come from an independent table")
ASSUMPTIONS = ["information_schema has the columns and contents documented by MySQL; the SQL is executed by sqlite on a mimicked catalog"]


def cols():
    out = []

    def add(dt, term, label="", **a):
        out.append((f"{dt}{label}", {"data_type": dt, "column_type": a.pop("ct", dt)} | a, term))
    for dt, bits, p in (("bigint", 64, 19), ("int", 32, 10), ("integer", 32, 10), ("mediumint", 24, 7), ("smallint", 16, 5), ("tinyint", 8, 3)):
        for ct, signed in ((dt, True), (f"{dt} unsigned", False), (f"{dt}(5)", True), (f"{dt}(5) unsigned zerofill", False)):
            add(dt, {"k": "int", "bits": bits, "signed": signed}, ":" + ct, ct=ct, numeric_precision=p, numeric_scale=0)
    for p in (1, 12, 22, 23, 24, 53):
        add("float", {"k": "float", "bits": 32 if p <= 23 else 64}, f":{p}", numeric_precision=p)
    add("double", {"k": "float", "bits": 64}, numeric_precision=22)
    for dt in ("text", "mediumtext", "longtext", "tinytext", "varchar"):
        for n in (1, 255, 65535, 4294967295):
            add(dt, {"k": "string", "bytes": n}, f":{n}", character_octet_length=n, character_maximum_length=n)
    add("json", {"k": "string"})
    for dt in ("char", "enum", "set"):
        for n in (1, 4, 1020):
            add(dt, {"k": "string", "bytes": n, "variable": False}, f":{n}", character_octet_length=n, character_maximum_length=max(1, n // 4))
    for dt in ("blob", "mediumblob", "longblob", "tinyblob", "varbinary"):
        for n in (1, 255, 4294967295):
            add(dt, {"k": "bytes", "bytes": n}, f":{n}", character_octet_length=n, character_maximum_length=n)
    for n in (1, 16, 255):
        add("binary", {"k": "bytes", "bytes": n, "variable": False}, f":{n}", character_octet_length=n)
    for n in (1, 8, 64):
        add("bit", {"k": "bytes", "bytes": 8, "variable": False}, f":{n}", numeric_precision=n)
    for dt in ("timestamp", "datetime"):
        for p in range(7):
            add(dt, {"k": "int", "bits": 64, "logical": "build.recap.Timestamp", "x": {"unit": "second" if p == 0 else "millisecond" if p <= 3 else "microsecond"}},
                f":{p}", datetime_precision=p)
    for p, s in ((1, 0), (10, 0), (10, 2), (10, 10), (65, 30), (65, 0)):
        add("decimal", {"k": "bytes", "bytes": 32, "variable": False, "logical": "build.recap.Decimal", "x": {"precision": p, "scale": s}},
            f":{p},{s}", numeric_precision=p, numeric_scale=s)
    for dt in ("dec", "numeric"):
        add(dt, {"k": "bytes", "bytes": 32, "variable": False, "logical": "build.recap.Decimal", "x": {"precision": 7, "scale": 3}}, numeric_precision=7, numeric_scale=3)
    add("year", {"k": "int", "bits": 16, "signed": False})
    for dt in ("date", "time", "geometry", "point", "linestring", "polygon", "multipoint", "geometrycollection", "vector", "unknown"):
        add(dt, None, datetime_precision=0)
    return out


db = None


def start_worker(ctx):
    global db
    F.install()
    from recap.clients.mysql import MysqlClient
    db = DB("mysql", MysqlClient, cols())


def BOUNDS(tier):
    return {"columns": len(cols()), "pairs": "one per type" if tier == "quick" else "all", "sequence": 2 if tier == "quick" else 3}


def cases(tier):
    return DB("mysql", None, cols()).cases(tier)


def run_case(case, ctx):
    db.run_case(case, ctx)
