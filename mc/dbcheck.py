"""Shared exploration for sources that are read through information_schema (MySQL, PostgreSQL, Snowflake).

A check provides COLS: list of (label, catalog row attributes, expected term or None when the type must be refused).
Every column is stored in the mimicked catalog and read through the real client, i.e. real SQL -> rows -> converter."""
import copy, itertools, json
from mc import fakedb as F
from mc import terms as M
from mc.engine import observe

NULLS = ("YES", "NO")
DEFAULTS = (None, "x", "", "NULL")
NAMES = ("c", "A b", "select", "é.x", "name", "default", "1", "a.b", " c", "c ")


def norm(name):
    return name


def field(term, name, nullable, default):
    """Expected field for a column."""
    t = copy.deepcopy(term)
    if t["k"] == "union" and any(c["k"] == "null" for c in t["t"]):
        u = t
        u.setdefault("x", {})
    elif nullable:
        u = {"k": "union", "t": [{"k": "null"}, t], "x": {}}
    else:
        u = t
        u["x"] = dict(u.get("x", {}))
    if nullable or default is not None:
        u["x"]["default"] = default
    u["x"]["name"] = name
    return u


class DB:
    def __init__(self, driver, client, cols, normal=None):
        self.driver, self.client_cls, self.cols = driver, client, cols
        self.normal = normal or (lambda o: (M.snap(o), None))
        self.good = [c for c in cols if c[2] is not None]
        self.bad = [c for c in cols if c[2] is None]

    # ------------------------------------------------------------------ enumeration
    def cases(self, tier):
        chunk = 8
        for i in range(0, len(self.cols), chunk):
            yield {"single": list(range(i, min(i + chunk, len(self.cols))))}
        red = self.reduced(tier)
        for i in red:
            yield {"pairs": i, "red": red}
        small = red[:: max(1, len(red) // (6 if tier == "quick" else 14))]
        for i in small:
            yield {"seq": i, "red": small, "depth": 2 if tier == "quick" else 3}
        yield {"isolation": 1}

    def reduced(self, tier):
        """One column per (database type) for pairs; everything in the thorough tier."""
        out, seen = [], set()
        for i, (lab, attrs, t) in enumerate(self.cols):
            k = (attrs["data_type"], attrs.get("udt_name") or "", bool(attrs.get("enum_values")), t is None)
            if tier == "thorough" or k not in seen:
                seen.add(k)
                out.append(i)
        return out

    def row(self, i, name, null, default):
        return {"is_nullable": null, "column_default": default} | self.cols[i][1] | {"column_name": name}

    # ------------------------------------------------------------------ running
    def connect(self, tables, other=None):
        """tables: name -> rows, stored in catalog c / schema s; decoys everywhere else."""
        # same tables elsewhere, with the same column names but other types, and one more column
        other = [self.cols.index(c) for c in self.good if c[1].get("enum_values")] or [self.cols.index(self.good[0])]
        decoy = {t: [self.row(other[n % len(other)], r["column_name"], "YES", "decoy") | {"attndims": 3} for n, r in enumerate(rows)]
                 + [self.row(self.cols.index(self.good[0]), "decoy", "YES", "decoy")] for t, rows in tables.items()}
        if self.driver == "mysql":
            tree = {"c0": decoy, "c": tables, "c2": decoy}
        else:
            tree = {"c": {"s0": decoy, "s": tables, "s2": decoy}, "c2": {"s": decoy}}
        F.Universe.current = F.Universe({self.driver: tree})
        if self.driver == "mysql":
            return self.client_cls(F.dbconn("mysql", {}))
        return self.client_cls(F.dbconn(self.driver, {"dbname": "c", "database": "c"}))

    def read(self, client, table):
        if self.driver == "mysql":
            return observe(client.schema, "c", table)
        return observe(client.schema, "c", "s", table)

    def expect(self, rows):
        """rows: list of (index, name, null, default)"""
        if any(self.cols[i][2] is None for i, *_ in rows):
            return None
        return [field(self.cols[i][2], n, null == "YES", d) for i, n, null, d in rows]

    def judge(self, ctx, key, what, got, rows):
        ctx.count(transitions=1)
        want = self.expect(rows)
        if want is None:
            ctx.outcome("refused")
            if got[0] != "err":
                ctx.fail("accepted:" + key, f"{what} must be refused; got {M.snap(got[1])}")
            return
        ctx.outcome("read")
        if got[0] != "ok":
            ctx.fail("raises:" + key, f"{what}: {got}")
            return
        st, err = self.normal(got[1])
        w = M.term_snap({"k": "struct", "f": want})
        if err or st != w:
            ctx.fail("differs:" + key, f"{what}: {err or ''}\n got {st}\nwant {w}")

    def run_case(self, case, ctx):
        if "single" in case:
            for i in case["single"]:
                self.single(i, ctx)
        elif "pairs" in case:
            i = case["pairs"]
            tables, rows = {}, {}
            for n, j in enumerate(case["red"]):
                for m, (a, b, da, db) in enumerate((("YES", "NO", None, "x"), ("NO", "YES", "x", None))):
                    t = f"t{n}_{m}"
                    rows[t] = [(i, "z", a, da), (j, "a", b, db)]
                    tables[t] = [self.row(*r) for r in rows[t]]
            cl = self.connect(tables)
            for t, r in rows.items():
                ctx.count(states=1, traces=1)
                self.judge(ctx, f"pair:{self.cols[r[0][0]][0]}+{self.cols[r[1][0]][0]}", f"columns {tables[t]}", self.read(cl, t), r)
        elif "seq" in case:
            red = case["red"]
            for seq in itertools.product(red, repeat=case["depth"] - 1):
                seq = (case["seq"],) + seq
                for same in (True, False):
                    ctx.count(states=1, traces=1)
                    rows = {f"t{n}": [(i, "a", "NO", None), (red[0], "b", "YES", "x")] for n, i in enumerate(seq)}
                    tables = {t: [self.row(*r) for r in rs] for t, rs in rows.items()}
                    cl = self.connect(tables)
                    for t, r in list(rows.items()) + list(rows.items()):
                        if not same:
                            cl = self.connect(tables)
                        self.judge(ctx, "repeat:" + "/".join(self.cols[k][0] for k in seq), f"table {t} of {tables} (same connection: {same})", self.read(cl, t), r)
        else:
            # names that differ in case or spaces only
            for names in itertools.chain(itertools.permutations(("a", "A", " a", "a ", "_a"), 2), itertools.permutations(("a", "A", "aA", " a"), 3)):
                if self.driver == "mysql" and len({n.lower() for n in names}) < len(names):
                    continue
                rows = [(self.cols.index(self.good[k % 2]), nm, NULLS[k % 2], None) for k, nm in enumerate(names)]
                cl = self.connect({"t": [self.row(*r) for r in rows]})
                ctx.count(states=1, traces=1)
                self.judge(ctx, "names", f"columns {names}", self.read(cl, "t"), rows)
            # order of columns, many columns, and rows of other tables / schemas
            for n in range(1, 6):
                for perm in itertools.permutations(range(n)):
                    names = [f"c{p}" for p in perm]
                    rows = [(self.cols.index(self.good[p % len(self.good)]), nm, NULLS[p % 2], None) for p, nm in zip(perm, names)]
                    for tn in ("t", "A b", "t'x", "select", "t.x", "é"):
                        cl = self.connect({tn: [self.row(*r) for r in rows], tn + "2": [self.row(*rows[0])]})
                        ctx.count(states=1, traces=1)
                        self.judge(ctx, "order", f"columns {names} of {tn}", self.read(cl, tn), rows)

    def single(self, i, ctx):
        tables, rows = {}, {}
        for k, (null, d, name) in enumerate(itertools.product(NULLS, DEFAULTS, NAMES)):
            rows[f"t{k}"] = [(i, name, null, d)]
            tables[f"t{k}"] = [self.row(i, name, null, d)]
        cl = self.connect(tables)
        for t, r in rows.items():
            ctx.count(states=1, traces=1)
            self.judge(ctx, self.cols[i][0], f"column {tables[t]}", self.read(cl, t), r)
            # every spelling of the flag and of the type that the catalog may use
        for up in (str.upper, str.lower):
            rw = self.row(i, "c", "YES", None)
            rw["data_type"] = up(rw["data_type"])
            rw["is_nullable"] = up(rw["is_nullable"])
            cl = self.connect({"t": [rw]})
            self.judge(ctx, self.cols[i][0] + ":case", f"column {rw}", self.read(cl, "t"), [(i, "c", "YES", None)])
