"""Reads show the source as it is now: all histories of changes of a source and reads through all entry points."""
import importlib, itertools, json, os
from mc import fakedb as F
from checks import C30 as S
from checks.C27 import in_child
from mc.jail import SCRATCH

PID = "C31"
RULE = ("every history of up to the depth of (state of the sources, entry point) for every operation on every kind of source, every pair of operations on one source with a change in "
        "between, and every pair of operations on different sources; sources change their tables, columns, types, subjects, files and statistics")
ASSUMPTIONS = ["sources change between reads, not during one", "the answer expected in each state is that of a process that has never seen another state"]
CASE_TIMEOUT = 300
STATES = 3
OPS, ENTRIES = S.OPS, S.ENTRIES


def universe(v):
    from google.cloud.bigquery import SchemaField
    from pymetastore.htypes import HPrimitiveType, PrimitiveCategory as PC
    from pymetastore.metastore import HColumn, HTable
    from pymetastore.stats import ColumnStats, LongTypeStats
    if v == 0:
        return S.universe()
    col = S.col
    dt = {1: "bigint", 2: "smallint"}[v]
    new = f"new{v}"
    ht = HTable(database_name="db", name="t", table_type="MANAGED_TABLE", columns=[HColumn("a", HPrimitiveType(PC.LONG if v == 1 else PC.SHORT))] + ([HColumn("z", HPrimitiveType(PC.INT))] if v == 1 else []), partition_columns=[], storage=None, parameters={})
    stats = [ColumnStats(True, "db", "t", "a", "int", LongTypeStats(7, 3, 1, 5 + v))] if v == 1 else []
    pg = {"t": [col("a", "ARRAY", udt_name="_int8" if v == 1 else "_bool", attndims=1), col("m", "USER-DEFINED", udt_name="mood", enum_values=["x", "y", new])], new: [col("z", "text")]}
    my = {"t": [col("a", dt, column_type=dt), col(new, "int")], new: [col("b", "int")]}
    sf = {"t": [col("a", "NUMBER", numeric_precision=10 + v, numeric_scale=v), col(new, "TEXT")], new: [col("a", "NUMBER")]}
    return {"postgresql": {"db": {"s": pg, new: {}}, new: {}}, "mysql": {"db": my, new: {}}, "snowflake": {"db": {"s": sf, new: {}}, new: {}},
            "csr": {"j-value": ("JSON", json.dumps({"type": "object", "properties": {"x": {"type": "string"}, new: {"type": "integer"}}})),
                    "k-value": ("AVRO", json.dumps({"type": "record", "name": "r", "fields": [{"name": "a", "type": "long" if v == 1 else "string"}]})), new: ("AVRO", "{}")},
            "hive": {"db": {"t": (ht, stats), new: (ht, [])}, new: {}},
            "bigquery": {"p": {"d": {"t": [SchemaField("a", "STRING" if v == 1 else "BYTES"), SchemaField(new, "INTEGER")], new: []}, new: {}}, new: {}}}


def set_state(v):
    """Change every source."""
    F.Universe.current = F.Universe(W["universes"][v])
    d = S.W["d"]
    for n in os.listdir(d):
        if n.startswith(("new", "b.", "x.db")):
            os.unlink(f"{d}/{n}")
    t = ["int", "long", "string"][v]
    # same length and, as far as the file system tells, possibly the same time
    for name, text in (("a.avsc", json.dumps({"type": "record", "name": "r", "fields": [{"name": "abc"[v], "type": t.ljust(6).strip()}]})),
                       ("j.json", json.dumps({"type": "object", "properties": {"abc"[v]: {"type": "integer"}}})), ("p.proto", 'syntax = "proto3"; message M { int32 %s = 1; }' % "abc"[v])):
        with F_OPEN(f"{d}/{name}", "w") as f:
            f.write(text)
        os.utime(f"{d}/{name}", (1, 1))
    if v:
        with F_OPEN(f"{d}/new{v}", "w") as f:
            f.write("x")
    c = F.real_sqlite_connect(d + "/x.db")
    c.execute("PRAGMA synchronous = OFF")
    c.execute("CREATE TABLE t (%s)" % ("a INTEGER NOT NULL, b VARCHAR(5)", "a TEXT, new1 INT", "new2 REAL")[v])
    c.execute("CREATE TABLE t%d (a INTEGER)" % v)
    c.commit()
    c.close()


W = {}
F_OPEN = open


def start_worker(ctx):
    S.start_worker(ctx, warm=False)
    import fastapi.testclient, google.cloud.bigquery, jsonschema  # so that the forks don't
    for m in ("avro", "bigquery", "hive_metastore", "json_schema", "mysql", "postgresql", "protobuf", "snowflake", "sqlite"):
        importlib.import_module(f"recap.converters.{m}")
    for path in W_clients().values():
        importlib.import_module(path.rpartition(".")[0])
    W["universes"] = [universe(v) for v in range(STATES)]
    W["base"] = {}
    # each answer is of a process that has read nothing else
    for v in range(STATES):
        def one():
            set_state(v)
            return S.run("library", OPS[i][1], OPS[i][2].replace("{d}", S.W["d"]))[0]
        W["base"][v] = []
        for i in range(len(OPS)):
            W["base"][v].append(in_child(one))


def W_clients():
    return importlib.import_module("recap.clients").CLIENTS


def BOUNDS(tier):
    return {"operations": len(OPS), "states of the sources": STATES, "entry points": len(ENTRIES), "depth": "2, and 3 with one entry point" if tier == "quick" else "3, and 4 with one entry point"}


def usable(i, e):
    u = OPS[i][2]
    return not (u == "postgresql://h" and e in ("library strict", "http") or e in ("library strict", "http") and u.startswith("{d}") or e == "http" and "?" in u)


def cases(tier):
    for i in range(len(OPS)):
        yield {"op": i, "deep": tier != "quick"}


def history(i, steps, ctx):
    """steps: (operation, state, entry point)"""
    ctx.count(states=1, traces=1, transitions=len(steps))
    for k, (op, v, e) in enumerate(steps):
        set_state(v)
        _, m, u = OPS[op]
        got, held, _ = S.run(e, m, u.replace("{d}", S.W["d"]))
        ctx.outcome(got[0])
        want = W["base"][v][op]
        if got != want:
            when = [j for j in range(STATES) if W["base"][j][op] == got]
            ctx.fail(f"stale:{OPS[op][0]}:{m}", f"{[(OPS[o][1:], s, en) for o, s, en in steps[:k + 1]]}: got {got}, which is the answer of state {when}\nwant {want}")
            return


def run_case(case, ctx):
    i = case["op"]
    base = [W["base"][v][i] for v in range(STATES)]
    if any(b[0] != "ok" for b in base):
        ctx.fail("plain", f"{OPS[i]}: {base}")
        return
    if len(set(map(str, base))) < STATES:
        ctx.fail(f"alike:{OPS[i][0]}:{OPS[i][1]}", f"{OPS[i]}: sources that differ give {base}")
        return
    es = [e for e in ENTRIES if usable(i, e)]
    n = 3 if case["deep"] else 2
    for vs in itertools.product(range(STATES), repeat=n):
        if len(set(vs)) > 1 or n > 2:
            for em in itertools.product(es, repeat=n):
                history(i, [(i, v, e) for v, e in zip(vs, em)], ctx)
    for vs in itertools.product(range(STATES), repeat=n + 1):
        for e in es:
            history(i, [(i, v, e) for v in vs], ctx)
    # another operation on the same source in between
    for j in range(len(OPS)):
        if j != i and OPS[j][0] == OPS[i][0]:
            for v, w in itertools.permutations(range(STATES), 2):
                for e in es:
                    if usable(j, e):
                        history(i, [(j, v, e), (i, v, e), (j, w, e), (i, w, e)], ctx)
    # another operation on another source before
    for j in range(len(OPS)):
        if OPS[j][0] != OPS[i][0]:
            for v, w in itertools.product(range(STATES), repeat=2):
                for e in es:
                    if usable(j, e):
                        history(i, [(j, v, e), (i, w, e)], ctx)
