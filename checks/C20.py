"""Hive tables -> Recap structs, through the real client on a stand-in metastore."""
import itertools
from pymetastore import htypes as H
from pymetastore.metastore import HColumn
from pymetastore.hive_metastore.ttypes import Date, Decimal
from pymetastore.stats import (BinaryTypeStats, BooleanTypeStats, ColumnStats, DateTypeStats, DecimalTypeStats, DoubleTypeStats, LongTypeStats, StringTypeStats)
import types as pytypes
from mc import fakedb as F
from mc import terms as M
from mc.engine import observe

PID = "C20"
RULE = ("every Hive primitive x length / precision / scale boundaries x comment x name; all type trees over list/map/struct/union up to depth 2 (3 thorough) above "
        "a reduced leaf set; all ordered pairs of columns; all orders; every statistics kind x value combinations x every subset and order of the columns "
        "having statistics; all sequences of tables over one client; unsupported types at every position")
ASSUMPTIONS = ["tables are described by pymetastore objects; partition columns are not part of the struct"]
PC = H.PrimitiveCategory


def leaves():
    """(label, maker, expected term without nullability, or None when refused)"""
    def p(c):
        return lambda: H.HPrimitiveType(c)
    out = [("boolean", p(PC.BOOLEAN), {"k": "bool"}), ("void", p(PC.VOID), {"k": "null"}),
           ("binary", p(PC.BINARY), {"k": "bytes", "bytes": 2147483647}), ("string", p(PC.STRING), {"k": "string"}),
           ("date", p(PC.DATE), {"k": "int", "bits": 32, "logical": "build.recap.Date", "x": {"unit": "day"}})]
    for c, b in ((PC.BYTE, 8), (PC.SHORT, 16), (PC.INT, 32), (PC.LONG, 64)):
        out.append((c.value, p(c), {"k": "int", "bits": b}))
    for c, b in ((PC.FLOAT, 32), (PC.DOUBLE, 64)):
        out.append((c.value, p(c), {"k": "float", "bits": b}))
    for c, z in ((PC.TIMESTAMP, "UTC"), (PC.TIMESTAMPLOCALTZ, None)):
        out.append((c.value, p(c), {"k": "int", "bits": 64, "logical": "build.recap.Timestamp", "x": {"unit": "nanosecond", "timezone": z}}))
    for c, u in ((PC.INTERVAL_YEAR_MONTH, "month"), (PC.INTERVAL_DAY_TIME, "second")):
        out.append((c.value, p(c), {"k": "bytes", "bytes": 12, "logical": "build.recap.Interval", "x": {"unit": u, "signed": True}}))
    for n in (1, 100, 65535):
        out.append((f"varchar{n}", lambda n=n: H.HVarcharType(n), {"k": "string", "bytes": n}))
    for n in (1, 255):
        out.append((f"char{n}", lambda n=n: H.HCharType(n), {"k": "string", "bytes": n, "variable": False}))
    for a, b in ((1, 0), (10, 0), (10, 2), (10, 3), (38, 38), (38, 0), (38, 18)):
        out.append((f"decimal{a},{b}", lambda a=a, b=b: H.HDecimalType(a, b),
                    {"k": "bytes", "bytes": 16, "variable": False, "logical": "build.recap.Decimal", "x": {"precision": a, "scale": b}}))
    out.append(("unknown", p(PC.UNKNOWN), None))
    out.append(("bare", lambda: H.HType("weird", H.HTypeCategory.PRIMITIVE), None))
    return out


L = leaves()
IX = {l[0]: i for i, l in enumerate(L)}
SMALL = [IX[x] for x in ("INT", "string", "void", "decimal10,2", "decimal10,3", "boolean", "unknown")]
NAMES = ("c", "A b", "select", "é.x", "name", "doc", "default", "type")
COMMENTS = (None, "", "d", "a\nb", " d ")


def make(s):
    """s: leaf index | ("list", s) | ("map", k, v) | ("union", [s]) | ("struct", [(name, s)])"""
    if isinstance(s, int):
        return L[s][1]()
    if s[0] == "list":
        return H.HListType(make(s[1]))
    if s[0] == "map":
        return H.HMapType(make(s[1]), make(s[2]))
    if s[0] == "union":
        return H.HUnionType([make(x) for x in s[1]])
    return H.HStructType([n for n, _ in s[1]], [make(x) for _, x in s[1]])


NULL = {"k": "null"}


class Unsupported(Exception):
    pass


def alternatives(s):
    """Distinct non-union alternatives a Hive type contributes, null first."""
    if isinstance(s, tuple) and s[0] == "union":
        out = [NULL]
        for x in s[1]:
            for t in alternatives(x):
                if M.term_snap(t) not in [M.term_snap(o) for o in out]:
                    out.append(t)
        return out
    t = bare(s)
    return [NULL] if t["k"] == "null" else [NULL, t]


def bare(s):
    if isinstance(s, int):
        if L[s][2] is None:
            raise Unsupported
        return L[s][2]
    if s[0] == "list":
        return {"k": "list", "v": want(s[1])}
    if s[0] == "map":
        return {"k": "map", "key": want(s[1]), "v": want(s[2])}
    if s[0] == "struct":
        return {"k": "struct", "f": [want(x, n) for n, x in s[1]]}


def want(s, name=None, comment=None):
    if isinstance(s, int) and L[s][2] == {"k": "null"}:
        t = {"k": "null", "x": {}}
    else:
        t = {"k": "union", "t": alternatives(s), "x": {"default": None}}
    if name is not None:
        t["x"]["name"] = name
    if comment:
        t["doc"] = comment
    return t


def BOUNDS(tier):
    return {"leaves": len(L), "tree depth": 2 if tier == "quick" else 3, "columns": 3, "sequence": 2 if tier == "quick" else 3}


def trees(depth, leaf):
    """All type trees of at most the given depth."""
    if depth == 0:
        return list(leaf)
    sub = trees(depth - 1, leaf)
    out = list(leaf)
    for a in sub:
        out.append(("list", a))
        out.append(("map", leaf[0], a))
        out.append(("map", a, leaf[1]))
        out.append(("union", [a]))
        out.append(("struct", [("a", a)]))
        out.append(("union", [leaf[0], a]))
        out.append(("union", [a, leaf[1]]))
        out.append(("struct", [("b", leaf[1]), ("a", a)]))
        out.append(("struct", [("a", a), ("b", leaf[0])]))
    if depth == 1:
        for a, b in itertools.product(sub, repeat=2):
            out += [("union", [a, b]), ("struct", [("x", a), ("y", b)]), ("map", a, b)]
    return out


def cases(tier):
    for i in range(len(L)):
        yield {"single": i}
        yield {"pairs": i}
    ts = trees(2 if tier == "quick" else 3, SMALL if tier == "quick" else SMALL[:5] + SMALL[-1:])
    n = 400
    for i in range(0, len(ts), n):
        yield {"trees": [i, i + n], "depth": 2 if tier == "quick" else 3, "leaf": SMALL if tier == "quick" else SMALL[:5] + SMALL[-1:]}
    for i in range(0, len(L) - 2, 5):
        yield {"seq": i, "depth": 2 if tier == "quick" else 3}
    for k in range(len(STATS)):
        yield {"stats": k}
    yield {"order": 1}


# statistics: (label, leaf, maker, attributes)
def stats():
    out = []
    for lo, hi in itertools.product((None, 0, -5), (None, 0, 100)):
        out.append((IX["LONG"], lambda lo=lo, hi=hi: LongTypeStats(7, 3, lo, hi), {"low": lo, "high": hi, "cardinality": 7, "null_count": 3}))
        out.append((IX["DOUBLE"], lambda lo=lo, hi=hi: DoubleTypeStats(0, 0, lo, hi), {"low": lo, "high": hi, "cardinality": 0, "null_count": 0}))
        a = {"cardinality": 9, "null_count": 4}
        out.append((IX["date"], lambda lo=lo, hi=hi: DateTypeStats(9, 4, None if lo is None else Date(lo), None if hi is None else Date(hi)),
                    a | ({} if lo is None else {"low": lo}) | ({} if hi is None else {"high": hi})))
    for lo, hi in itertools.product((None, 1), repeat=2):
        d = Decimal(2, b"\x01")
        out.append((IX["decimal10,2"], lambda lo=lo, hi=hi, d=d: DecimalTypeStats(5, 6, lo and d, hi and d),
                    {"cardinality": 5, "null_count": 6} | ({"low": d} if lo else {}) | ({"high": d} if hi else {})))
    for a, b, c, d in ((0, 0.0, 0, 0), (10, 2.5, 3, 4)):
        out.append((IX["string"], lambda a=a, b=b, c=c, d=d: StringTypeStats(a, b, c, d), {"max_length": a, "average_length": b, "cardinality": c, "null_count": d}))
        out.append((IX["binary"], lambda a=a, b=b, d=d: BinaryTypeStats(a, b, d), {"max_length": a, "average_length": b, "null_count": d}))
        out.append((IX["boolean"], lambda a=a, c=c, d=d: BooleanTypeStats(a, c, d), {"true_count": a, "false_count": c, "null_count": d}))
    out.append((IX["INT"], lambda: None, {}))
    return out


STATS = stats()


def start_worker(ctx):
    F.install()


def tbl(name, cols):
    return pytypes.SimpleNamespace(name=name, columns=[HColumn(n, make(s), c) for n, s, c in cols], partition_columns=[], database_name="d")


def client(tables, cs=None):
    from recap.clients.hive_metastore import HiveMetastoreClient
    decoy = {t: (tbl(t, [("decoy", IX["INT"], None)]), []) for t in tables}
    F.Universe.current = F.Universe({"hive": {"other": decoy, "d": {t: (tbl(t, cols), (cs or {}).get(t, [])) for t, cols in tables.items()}}})
    return HiveMetastoreClient(F.HMSFake())


def expect(name, cols):
    try:
        return {"k": "struct", "f": [want(s, n, c) for n, s, c in cols], "x": {"name": name}}
    except Unsupported:
        return None


def judge(ctx, key, cl, t, cols, stat=False, extra=None):
    ctx.count(states=1, traces=1, transitions=1)
    got = observe(cl.schema, "d", t, stat)
    w = expect(t, cols)
    if w is None:
        ctx.outcome("refused")
        if got[0] != "err":
            ctx.fail("accepted:" + key, f"{cols}: unsupported type accepted: {M.snap(got[1])}")
        return
    ctx.outcome("read")
    if got[0] != "ok":
        ctx.fail("raises:" + key, f"{cols}: {got}")
        return
    for f, e in zip(w["f"], extra or []):
        f["x"] = f["x"] | e
    s, ws = M.snap(got[1]), M.term_snap(w)
    if s != ws:
        ctx.fail("differs:" + key, f"{cols}\n got {s}\nwant {ws}")


def run_case(case, ctx):
    if "single" in case:
        i = case["single"]
        tables = {f"t{n}": [(nm, i, c)] for n, (nm, c) in enumerate(itertools.product(NAMES, COMMENTS))}
        cl = client(tables)
        for t, cols in tables.items():
            for stat in (False, True):
                judge(ctx, L[i][0], cl, t, cols, stat)
    elif "pairs" in case:
        i = case["pairs"]
        tables = {}
        for j in range(len(L)):
            tables[f"t{j}"] = [("z", i, COMMENTS[j % 4]), ("a", j, COMMENTS[i % 4])]
            tables[f"s{j}"] = [("s", ("struct", [("z", i), ("a", j)]), "d"), ("a", j, None)]
            tables[f"u{j}"] = [("u", ("union", [i, j]), None), ("v", ("union", [j, i, j]), "d")]
            tables[f"m{j}"] = [("m", ("map", i, j), None), ("l", ("list", ("map", j, i)), "d"), ("ul", ("union", [("list", i), ("list", j), ("map", i, j), ("map", i, j)]), None)]
        cl = client(tables)
        for t, cols in tables.items():
            judge(ctx, f"pair:{L[i][0]}", cl, t, cols)
    elif "trees" in case:
        ts = trees(case["depth"], case["leaf"])[case["trees"][0]:case["trees"][1]]
        tables = {f"t{n}": [("c", s, "d" if n % 2 else None)] for n, s in enumerate(ts)}
        cl = client(tables)
        for t, cols in tables.items():
            judge(ctx, "tree", cl, t, cols)
    elif "seq" in case:
        pool = range(0, len(L) - 2, 5)
        for seq in itertools.product(pool, repeat=case["depth"] - 1):
            seq = (case["seq"],) + seq
            tables = {f"t{n}": [("a", i, None), ("b", ("union", [i, ("list", i)]), "d"), ("c", ("struct", [("a", i)]), None)] for n, i in enumerate(seq)}
            cl = client(tables)
            for t, cols in list(tables.items()) * 2:
                judge(ctx, "repeat", cl, t, cols)
    elif "stats" in case:
        # statistics of two columns in every order, for every subset of 3 columns, with the same statistics kind elsewhere
        leaf, mk, attrs = STATS[case["stats"]]
        for k2 in range(len(STATS)):
            leaf2, mk2, attrs2 = STATS[k2]
            for pos in itertools.permutations(range(3)):
                for have in itertools.product((0, 1), repeat=2):
                    cols = [None] * 3
                    cols[pos[0]] = ("p", leaf, None)
                    cols[pos[1]] = ("q", leaf2, "d")
                    cols[pos[2]] = ("r", IX["INT"], None)
                    ex = [{}] * 3
                    cs = []
                    if have[0]:
                        cs.append(ColumnStats(True, "d", "t", "p", "x", mk()))
                        ex[pos[0]] = attrs
                    if have[1]:
                        cs.insert(k2 % 2, ColumnStats(True, "d", "t", "q", "x", mk2()))
                        ex[pos[1]] = attrs2
                    cl = client({"t": cols, "t2": cols}, {"t": cs})
                    judge(ctx, "stats", cl, "t", cols, True, ex)
                    judge(ctx, "stats not requested", cl, "t", cols, False)
                    judge(ctx, "stats of another table", cl, "t2", cols, True)
    else:
        for n in range(0, 6):
            for perm in itertools.permutations(range(n)):
                cols = [(f"c{p}", p * 3, COMMENTS[p % 4]) for p in perm]
                judge(ctx, "order", client({"t": cols, "t2": cols[:1]}), "t", cols)
