"""SQLite columns -> Recap fields: real databases, real SQLiteClient; affinities come from the SQL engine itself."""
import itertools, sqlite3
from mc import terms as M
from mc.dbcheck import field
from mc.engine import observe

PID = "C18"
MAX = 2147483647
RULE = ("every declared type (documented names, all ordered pairs of the affinity keywords with every separator) x parameters x letter case, "
        "x nullability / primary key forms x defaults x column names; all ordered pairs and orders of columns; table kinds (plain, STRICT, "
        "WITHOUT ROWID, generated columns, virtual); table names needing quotes; all sequences of tables over one connection.  The affinity "
        "is measured on the SQL engine with CAST, not taken from the code")
ASSUMPTIONS = ["primary key columns count as not null; NUMERIC affinity is a union that includes null", "the width of DOUBLE(n) with n<=23 is not judged"]

WORDS = ["INT", "INTEGER", "TINYINT", "BIGINT", "UNSIGNED BIG INT", "INT2", "CHARACTER", "VARCHAR", "CHARACTER VARYING", "VARYING CHARACTER",
         "NCHAR", "NATIVE CHARACTER", "NVARCHAR", "TEXT", "CLOB", "BLOB", "REAL", "DOUBLE", "DOUBLE PRECISION", "FLOAT", "NUMERIC", "DECIMAL",
         "BOOLEAN", "DATE", "DATETIME", "STRING", "FOO", "FLOATING POINT", "LONG", "BYTES", "BINARY"]
FRAG = ["INT", "CHAR", "CLOB", "TEXT", "BLOB", "REAL", "FLOA", "DOUB", "X"]
PARAMS = [("", None), ("(1)", 1), ("(20)", 20), (" (20)", 20), ("( 20 )", 20), ("(255)", 255), ("(5,2)", 5), ("(5 , 2)", 5), ("(5 , 2 )", 5), ("(22)", 22), ("(23)", 23),
          ("(24)", 24), ("(53)", 53), ("(65536)", 65536)]
NULLS = [("", True), (" NULL", True), (" NOT NULL", False), (" PRIMARY KEY", False), (" NOT NULL PRIMARY KEY", False), (" UNIQUE", True)]
DEFAULTS = [("", None), (" DEFAULT 5", "5"), (" DEFAULT -1.5", "-1.5"), (" DEFAULT 'x'", "'x'"), (" DEFAULT 'it''s'", "'it''s'"), (" DEFAULT NULL", "NULL"),
            (" DEFAULT CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP"), (" DEFAULT ''", "''"), (" DEFAULT 0", "0"), (" DEFAULT (1+2)", "1+2")]
NAMES = ["c", "A b", "select", "é.x", "name", "default", "1", 'q"x', "it's", "TYPE", "pk"]
TNAMES = ["t", "A b", "select", "t'x", "t.x", "é", 'q"x', "x;y", "--", "T", "1t", "sqlite", "sqlitedata", "t)", "[t]", "`t`", "t%", "t_"]


def types(tier):
    out = list(WORDS)
    for a, b in itertools.product(FRAG, repeat=2):
        for sep in ("", " ", "_"):
            out.append(a + sep + b)
    if tier == "thorough":
        out += [" ".join(p) for p in itertools.product(FRAG, repeat=3)]
    return out


def q(n):
    return '"' + n.replace('"', '""') + '"'


aff = {}


def affinity(decl):
    if not decl:
        return "blob"
    k = decl.upper()
    if k not in aff:
        c = sqlite3.connect(":memory:")
        a, b = c.execute(f"SELECT typeof(CAST('1' AS {decl})), typeof(CAST('1.5' AS {decl}))").fetchone()
        aff[k] = {("integer", "integer"): "integer", ("integer", "real"): "numeric", ("real", "real"): "real", ("text", "text"): "text", ("blob", "blob"): "blob"}[(a, b)]
        c.close()
    return aff[k]


def term(decl, n):
    a = affinity(decl)
    if a == "integer":
        return {"k": "int", "bits": 64}
    if a == "real":
        return {"k": "float", "bits": 32 if n and n <= 23 else 64}
    if a == "text":
        return {"k": "string", "bytes": n or MAX}
    if a == "blob":
        return {"k": "bytes", "bytes": n or MAX}
    return {"k": "union", "t": [{"k": "null"}, {"k": "int", "bits": 64}, {"k": "float", "bits": 64}, {"k": "string", "bytes": MAX}, {"k": "bytes", "bytes": MAX}]}


def BOUNDS(tier):
    return {"types": len(types(tier)), "parameters": len(PARAMS), "nullability": len(NULLS), "defaults": len(DEFAULTS), "sequence": 2 if tier == "quick" else 3}


def cases(tier):
    ts = types(tier)
    for i in range(0, len(ts), 8):
        yield {"types": ts[i:i + 8]}
    for w in WORDS if tier == "thorough" else WORDS[:: 4]:
        yield {"attrs": w}
    for w in WORDS:
        yield {"pairs": w, "all": tier == "thorough"}
    for i in range(6):
        yield {"seq": i, "depth": 2 if tier == "quick" else 3}
    yield {"kinds": 1}
    yield {"tables": 1}
    yield {"order": 1}


def client(conn):
    from recap.clients.sqlite import SQLiteClient
    return SQLiteClient(conn)


def judge(ctx, key, what, got, want, alt=None):
    ctx.count(states=1, traces=1, transitions=1)
    if got[0] != "ok":
        ctx.fail("raises:" + key, f"{what}: {got}")
        return
    s = M.snap(got[1])
    ws = [M.term_snap({"k": "struct", "f": w}) for w in ([want] + ([alt] if alt else []))]
    if s not in ws:
        ctx.fail("differs:" + key, f"{what}\n got {s}\nwant {ws[0]}")


def table(ctx, key, c, name, cols, tail=""):
    """cols: (column name, declared type, parameter, (null sql, nullable), (default sql, default))"""
    pk = sum("PRIMARY" in x[3][0] for x in cols) > 1
    ddl = f"CREATE TABLE {q(name)} (" + ", ".join(f"{q(n)} {d}{nl[0].replace(' PRIMARY KEY', '') if pk else nl[0]}{df[0]}" for n, d, p, nl, df in cols)
    if pk:
        ddl += ", PRIMARY KEY (" + ", ".join(q(n) for n, d, p, nl, df in cols if "PRIMARY" in nl[0]) + ")"
    ddl += ")" + tail
    c.execute(ddl)
    return ddl, [field(term(d, p), n, nl[1], df[1]) for n, d, p, nl, df in cols]


def run_case(case, ctx):
    N, D = NULLS[0], DEFAULTS[0]
    NN = NULLS[2]
    if "types" in case:
        c = sqlite3.connect(":memory:")
        k = 0
        todo = []
        for w in case["types"]:
            for sql, n in PARAMS:
                forms = [w + sql, w.lower() + sql, w.title() + sql]
                for f in forms:
                    for nl in (N, NN):
                        k += 1
                        if "DOUB" in f.upper() and affinity(f) == "real" and n and n <= 23:
                            continue
                        todo.append((f"t{k}", f, table(ctx, w, c, f"t{k}", [("c", f, n, nl, D)])))
        cl = client(c)
        for t, f, (ddl, want) in todo:
            judge(ctx, "type:" + f.upper(), ddl, observe(cl.schema, t), want)
        c.close()
        ctx.outcome("types")
    elif "attrs" in case:
        c = sqlite3.connect(":memory:")
        cl = client(c)
        k = 0
        for nl, df, nm in itertools.product(NULLS, DEFAULTS, NAMES):
            k += 1
            ddl, want = table(ctx, "", c, f"t{k}", [(nm, case["attrs"], None, nl, df)])
            judge(ctx, f"attrs:{case['attrs']}", ddl, observe(cl.schema, f"t{k}"), want)
        c.close()
        ctx.outcome("attributes")
    elif "pairs" in case:
        c = sqlite3.connect(":memory:")
        cl = client(c)
        k = 0
        for w in WORDS:
            for (pa, na), (pb, nb) in itertools.product(PARAMS[:3] if case["all"] else PARAMS[1:3], PARAMS[:2]):
                k += 1
                if ("DOUB" in w and nb) or ("DOUB" in case["pairs"] and na):
                    continue
                nls = NULLS[k % len(NULLS)], NULLS[(k // 2) % len(NULLS)]
                ddl, want = table(ctx, "", c, f"t{k}", [("z", case["pairs"] + pa, na, nls[0], DEFAULTS[k % 10]), ("a", w + pb, nb, nls[1], DEFAULTS[(k + 3) % 10])])
                judge(ctx, f"pair:{case['pairs']}+{w}", ddl, observe(cl.schema, f"t{k}"), want)
        c.close()
        ctx.outcome("pairs")
    elif "seq" in case:
        pool = [("INTEGER", None), ("VARCHAR(20)", 20), ("BLOB", None), ("REAL", None), ("NUMERIC(5,2)", 5), ("", None)]
        for seq in itertools.product(range(6), repeat=case["depth"] - 1):
            seq = (case["seq"],) + seq
            c = sqlite3.connect(":memory:")
            cl = client(c)
            made = []
            for n, i in enumerate(seq):
                made.append((f"t{n}",) + table(ctx, "", c, f"t{n}", [("a", *pool[i], (N, NN)[n % 2], DEFAULTS[n % 3]), ("b", *pool[(i + n) % 6], N, D)]))
                # read everything there is after every step
                for t, ddl, want in made:
                    judge(ctx, "repeat", f"{t} of {[m[1] for m in made]}", observe(cl.schema, t), want)
            # the table is replaced by a different one
            c.execute("DROP TABLE t0")
            ddl, want = table(ctx, "", c, "t0", [("new", "TEXT", None, N, D)])
            judge(ctx, "recreated", ddl, observe(cl.schema, "t0"), want)
            c.execute("ALTER TABLE t0 ADD COLUMN more INT NOT NULL DEFAULT 7")
            judge(ctx, "altered", ddl, observe(cl.schema, "t0"), want + [field({"k": "int", "bits": 64}, "more", False, "7")])
            c.close()
        ctx.outcome("sequences")
    elif "kinds" in case:
        c = sqlite3.connect(":memory:")
        cl = client(c)
        k = 0
        for tail in (" STRICT", " STRICT, WITHOUT ROWID", " WITHOUT ROWID", ""):
            for tys in itertools.permutations(["INT", "INTEGER", "REAL", "TEXT", "BLOB", "ANY"], 2):
                for pk in (0, 1):
                    k += 1
                    cols = [(f"c{i}", t, None, NULLS[3] if (i == 0 and (pk or "WITHOUT" in tail)) else NULLS[2 * ((k + i) % 2)], DEFAULTS[(k + i) % 2]) for i, t in enumerate(tys)]
                    ddl, want = table(ctx, "", c, f"t{k}", cols, tail)
                    judge(ctx, "kind:" + tail, ddl, observe(cl.schema, f"t{k}"), want)
        # composite primary keys, foreign keys, checks
        ddl, want = table(ctx, "", c, "comp", [("a", "INT", None, NULLS[3], D), ("b", "TEXT", None, N, D), ("c", "BLOB", None, NULLS[3], D)])
        judge(ctx, "composite", ddl, observe(cl.schema, "comp"), want)
        i64 = {"k": "int", "bits": 64}
        for n, kind in enumerate(("VIRTUAL", "STORED", "")):
            for order in range(3):
                cols = ["a INT", "b VARCHAR(5) NOT NULL"]
                want = [field(i64, "a", True, None), field({"k": "string", "bytes": 5}, "b", False, None)]
                cols.insert(order, f"g INT GENERATED ALWAYS AS (a + 1) {kind}")
                want.insert(order, field(i64, "g", True, None))
                ddl = f"CREATE TABLE g{n}{order} ({', '.join(cols)})"
                c.execute(ddl)
                judge(ctx, "generated:" + kind, ddl, observe(cl.schema, f"g{n}{order}"), want)
        c.execute("CREATE TABLE chk (a INT CHECK (a > 0) COLLATE NOCASE, b TEXT REFERENCES comp(b) ON DELETE CASCADE, CONSTRAINT x UNIQUE (a, b))")
        judge(ctx, "constraints", "chk", observe(cl.schema, "chk"), [field(i64, "a", True, None), field({"k": "string", "bytes": MAX}, "b", True, None)])
        c.close()
        ctx.outcome("table kinds")
    elif "order" in case:
        for n in range(1, 6):
            for perm in itertools.permutations(range(n)):
                c = sqlite3.connect(":memory:")
                cl = client(c)
                ddl, want = table(ctx, "", c, "t", [(f"c{p}", WORDS[p * 3], None, NULLS[2 * (p % 2)], DEFAULTS[p]) for p in perm])
                judge(ctx, "order", ddl, observe(cl.schema, "t"), want)
                c.close()
        ctx.outcome("orders")
    else:
        # every pair of table names in one database, next to views and indexes
        for a, b in itertools.permutations(TNAMES, 2):
            if a.lower() == b.lower():
                continue
            c = sqlite3.connect(":memory:")
            cl = client(c)
            d1, w1 = table(ctx, "", c, a, [("one", "INT", None, N, D)])
            d2, w2 = table(ctx, "", c, b, [("two", "TEXT", None, NN, D)])
            c.execute(f"CREATE INDEX {q('i' + a)} ON {q(a)}(one)")
            c.execute(f"CREATE VIEW {q('v' + a)} AS SELECT 1 AS x")
            before = c.execute("SELECT * FROM sqlite_master").fetchall()
            judge(ctx, f"table:{a}", d1 + ";" + d2, observe(cl.schema, a), w1)
            judge(ctx, f"table:{b}", d1 + ";" + d2, observe(cl.schema, b), w2)
            for absent in (b + "x", "nope", "", f"{a}); DROP TABLE {b}; --", f'{a}"); DROP TABLE "{b}"; --'):
                if absent in (a, b):
                    continue
                r = observe(cl.schema, absent)
                if r[0] != "err":
                    ctx.fail("absent table", f"table {absent!r} does not exist next to {a!r}, {b!r}; got {M.snap(r[1])}")
            r = observe(cl.ls)
            if r[0] != "ok" or sorted(r[1]) != sorted([a, b]):
                ctx.fail("ls", f"tables {a!r}, {b!r}; listed {r}")
            if c.execute("SELECT * FROM sqlite_master").fetchall() != before:
                ctx.fail("changed", f"reading {a!r} changed the database")
            c.close()
        ctx.outcome("table names")
