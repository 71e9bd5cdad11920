"""BigQuery fields -> Recap fields, through the real client on a stand-in for google's client library."""
import itertools
from google.cloud.bigquery import SchemaField
from mc import fakedb as F
from mc import terms as M
from mc.engine import observe

PID = "C19"
RULE = ("every BigQuery type (all documented spellings the converter names) x length / precision / scale x mode x description x default x name; all ordered "
        "pairs of fields; all nestings of records up to depth 3 (4 thorough) with every mode at every level; all orders; all sequences of tables read over one client; "
        "unsupported types at every nesting position; decoy tables of the same name")
ASSUMPTIONS = ["fields are described by google's SchemaField objects, built both directly and from the REST representation"]

T64 = {"k": "int", "bits": 64, "logical": "build.recap.Timestamp", "x": {"unit": "microsecond"}}


def dec(n, p, s):
    return {"k": "bytes", "bytes": n, "variable": False, "logical": "build.recap.Decimal", "x": {"precision": p, "scale": s}}


def types():
    """(label, SchemaField keyword arguments, expected term or None when refused)"""
    out = []
    for t in ("STRING", "JSON"):
        for n in (None, 1, 10, 65536, 2 ** 31) if t == "STRING" else (None,):
            out.append((f"{t}:{n}", {"field_type": t, "max_length": n}, {"k": "string", "bytes": n}))
    for n in (None, 1, 16, 2 ** 31):
        out.append((f"BYTES:{n}", {"field_type": "BYTES", "max_length": n}, {"k": "bytes", "bytes": n}))
    for t in ("INT64", "INTEGER", "INT", "SMALLINT", "TINYINT", "BYTEINT"):
        out.append((t, {"field_type": t}, {"k": "int", "bits": 64}))
    for t in ("FLOAT", "FLOAT64"):
        out.append((t, {"field_type": t}, {"k": "float", "bits": 64}))
    out.append(("BOOLEAN", {"field_type": "BOOLEAN"}, {"k": "bool"}))
    for t in ("TIMESTAMP", "DATETIME"):
        out.append((t, {"field_type": t}, T64))
    out.append(("TIME", {"field_type": "TIME"}, {"k": "int", "bits": 32, "logical": "build.recap.Time", "x": {"unit": "microsecond"}}))
    out.append(("DATE", {"field_type": "DATE"}, {"k": "int", "bits": 32, "logical": "build.recap.Date", "x": {"unit": "day"}}))
    for t in ("NUMERIC", "DECIMAL"):
        for p, s in ((None, None), (1, None), (10, None), (38, None), (10, 2), (38, 9), (5, 0), (9, 9)):
            out.append((f"{t}:{p},{s}", {"field_type": t, "precision": p, "scale": s}, dec(16, p or 38, s or 0)))
    for t in ("BIGNUMERIC", "BIGDECIMAL"):
        for p, s in ((None, None), (1, None), (76, None), (76, 38), (38, 38), (10, 2), (5, 0)):
            out.append((f"{t}:{p},{s}", {"field_type": t, "precision": p, "scale": s}, dec(32, p or 76, s or 0)))
    for t in ("GEOGRAPHY", "INTERVAL", "RANGE", "FOREIGN", "TEXT", "DOUBLE", "UNKNOWN", ""):
        out.append((t or "empty", {"field_type": t}, None))
    return out


TY = types()
MODES = ("NULLABLE", "REQUIRED", "REPEATED")
NAMES = ("c", "A_b", "select", "é", "name", "doc", "default", "type")
DESCS = (None, "d", "a\nb", " d ")
DFLTS = (None, "'x'", "0", "CURRENT_TIMESTAMP()")


def BOUNDS(tier):
    return {"types": len(TY), "depth": 3 if tier == "quick" else 4, "sequence": 2 if tier == "quick" else 3}


def bq(spec):
    """spec: (type index or list of specs for a record, mode, name, description, default, record spelling)"""
    ty, mode, name, desc, dflt = spec[:5]
    if isinstance(ty, list):
        return SchemaField(name, spec[5] if len(spec) > 5 else "RECORD", mode=mode, description=desc, fields=[bq(s) for s in ty], **({"default_value_expression": dflt} if dflt else {}))
    kw = dict(TY[ty][1])
    ft = kw.pop("field_type")
    kw = {k: v for k, v in kw.items() if v is not None}
    if dflt is not None:
        kw["default_value_expression"] = dflt
    return SchemaField(name, ft, mode=mode, description=desc, **kw)


def rest(spec):
    """The same field from the REST representation (numbers are strings there)."""
    ty, mode, name, desc, dflt = spec[:5]
    d = {"name": name, "mode": mode}
    if desc is not None:
        d["description"] = desc
    if dflt is not None:
        d["defaultValueExpression"] = dflt
    if isinstance(ty, list):
        d["type"] = spec[5] if len(spec) > 5 else "RECORD"
        d["fields"] = [rest(s) for s in ty]
    else:
        kw = TY[ty][1]
        d["type"] = kw["field_type"]
        for k, r in (("max_length", "maxLength"), ("precision", "precision"), ("scale", "scale")):
            if kw.get(k) is not None:
                d[r] = str(kw[k])
    return d


def want(spec):
    ty, mode, name, desc, dflt = spec[:5]
    if isinstance(ty, list):
        fs = [want(s) for s in ty]
        t = None if any(f is None for f in fs) else {"k": "struct", "f": fs}
    else:
        t = TY[ty][2]
    if t is None:
        return None
    t = dict(t)
    if mode == "REPEATED":
        t = {"k": "list", "v": t}
    elif mode == "NULLABLE":
        t = {"k": "union", "t": [{"k": "null"}, t], "x": {"default": None}}
    t["x"] = dict(t.get("x", {})) | {"name": name}
    if desc is not None:
        t["doc"] = desc
    if dflt is not None:
        t["x"]["default"] = dflt
    return t


def cases(tier):
    for i in range(len(TY)):
        yield {"single": i}
    for i in range(len(TY)):
        yield {"pairs": i, "full": tier == "thorough"}
    depth = 3 if tier == "quick" else 4
    for i in (0, 6, 13, 21, len(TY) - 1):
        for m in MODES:
            yield {"nest": i, "mode": m, "depth": depth}
    for i in range(0, len(TY), 6):
        yield {"seq": i, "depth": 2 if tier == "quick" else 3}
    yield {"order": 1}


def start_worker(ctx):
    F.install()


def client(tables):
    from recap.clients.bigquery import BigQueryClient
    decoy = {t: [SchemaField("decoy", "STRING")] for t in tables}
    F.Universe.current = F.Universe({"bigquery": {"p": {"d": tables, "d2": decoy}, "p2": {"d": decoy}}})
    return BigQueryClient(F.BQClient())


def judge(ctx, key, cl, t, specs):
    ctx.count(states=1, traces=1, transitions=1)
    got = observe(cl.schema, "p", "d", t)
    ws = [want(s) for s in specs]
    if any(w is None for w in ws):
        ctx.outcome("refused")
        if got[0] != "err":
            ctx.fail("accepted:" + key, f"{specs}: unsupported type accepted: {M.snap(got[1])}")
        return
    ctx.outcome("read")
    if got[0] != "ok":
        ctx.fail("raises:" + key, f"{specs}: {got}")
        return
    s, w = M.snap(got[1]), M.term_snap({"k": "struct", "f": ws})
    if s != w:
        ctx.fail("differs:" + key, f"{specs}\n got {s}\nwant {w}")


def run_case(case, ctx):
    if "single" in case:
        i = case["single"]
        specs = {}
        for n, (m, nm, de, df) in enumerate(itertools.product(MODES, NAMES, DESCS, DFLTS)):
            specs[f"t{n}"] = (i, m, nm, de, df)
        cl = client({t: [bq(s)] for t, s in specs.items()} | {"r" + t: [SchemaField.from_api_repr(rest(s))] for t, s in specs.items()})
        for t, s in specs.items():
            judge(ctx, TY[i][0], cl, t, [s])
            judge(ctx, "rest:" + TY[i][0], cl, "r" + t, [s])
    elif "pairs" in case:
        i = case["pairs"]
        specs = {}
        for j in range(len(TY)):
            for n, (m1, m2) in enumerate(itertools.product(MODES, repeat=2)):
                if not case["full"] and n % 3 != (i + j) % 3:
                    continue
                specs[f"t{j}_{n}"] = [(i, m1, "z", DESCS[n % 2], DFLTS[n % 3]), (j, m2, "a", DESCS[(n + 1) % 2], DFLTS[(n + 1) % 3])]
                specs[f"s{j}_{n}"] = [(specs[f"t{j}_{n}"], m2, "rec", None, None, ("RECORD", "STRUCT")[n % 2]), (i, m1, "z", None, None)]
        cl = client({t: [bq(s) for s in ss] for t, ss in specs.items()})
        for t, ss in specs.items():
            judge(ctx, f"pair:{TY[i][0]}", cl, t, ss)
    elif "nest" in case:
        # every chain of records with every mode at every level and a sibling at every level, before or after
        i = case["nest"]
        specs, n = {}, 0
        for d in range(1, case["depth"]):
            for modes in itertools.product(MODES, repeat=d):
                for sib in itertools.product((None, "before", "after"), repeat=d) if d < 3 else [(s,) * d for s in (None, "before", "after")]:
                    for names in (("a",) * d, tuple(f"n{k}" for k in range(d))):
                        s = (i, case["mode"], "leaf", "d", None)
                        for k in range(d):
                            fs = [s]
                            other = (6, MODES[k % 3], "leaf" if k else "sib", None, "1")
                            if sib[k]:
                                fs.insert(0 if sib[k] == "before" else 1, other)
                            s = (fs, modes[k], names[k], ("doc%d" % k) if k % 2 else None, None)
                        n += 1
                        specs[f"t{n}"] = [s]
        cl = client({t: [bq(s) for s in ss] for t, ss in specs.items()} | {"r" + t: [SchemaField.from_api_repr(rest(s)) for s in ss] for t, ss in specs.items()})
        for t, ss in specs.items():
            judge(ctx, f"nest:{TY[i][0]}", cl, t, ss)
            judge(ctx, f"nest:rest:{TY[i][0]}", cl, "r" + t, ss)
        judge(ctx, "empty record", client({"t": [bq(([], "NULLABLE", "e", None, None))]}), "t", [([], "NULLABLE", "e", None, None)])
    elif "seq" in case:
        pool = list(range(0, len(TY), 6))
        for seq in itertools.product(pool, repeat=case["depth"] - 1):
            seq = (case["seq"],) + seq
            specs = {f"t{n}": [(i, MODES[n % 3], "a", None, None), ([(i, MODES[(n + 1) % 3], "a", "d", "1")], MODES[n % 3], "b", None, None)] for n, i in enumerate(seq)}
            cl = client({t: [bq(s) for s in ss] for t, ss in specs.items()})
            for t, ss in list(specs.items()) * 2:
                judge(ctx, "repeat", cl, t, ss)
    else:
        for n in range(0, 6):
            for perm in itertools.permutations(range(n)):
                ss = [(p * 3, MODES[p % 3], f"c{p}", DESCS[p % 2], DFLTS[p % 2]) for p in perm]
                cl = client({"t": [bq(s) for s in ss], "t2": [bq((0, "NULLABLE", "o", None, None))]})
                judge(ctx, "order", cl, "t", ss)
                for t in ("nope",):
                    if observe(cl.schema, "p", "d", t)[0] != "err":
                        ctx.fail("absent", "a table that does not exist was read")
