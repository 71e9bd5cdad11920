"""Navigation: everything that is listed can be opened, from the roots down, through all entry points."""
import importlib, itertools, json, os, shutil
from urllib.parse import quote
from mc import fakedb as F
from mc.asgi import request
from mc.jail import SCRATCH

PID = "C33"
RULE = ("every shape of source up to two objects per level whose names coincide across levels, and every special name and pair of special names at every level, for every kind of source and form of its root: "
        "the graph of URLs that is reachable from the listed roots by appending listed names is explored completely, through every entry point, and compared with the tree of the source")
ASSUMPTIONS = ["names that mean something in a URL (/ ? # % and control characters) have no documented spelling and are outside the bound", "subjects end in -key or -value",
               "roots are configured at the level of a connection, without options", "listings have no order"]
CASE_TIMEOUT = 300
ENTRIES = ["library strict", "library", "cli", "http"]
NAMES = ["a", "b", "A", "ab", "a b", " a", "a ", " ", "a_b", "ä", "日本", "a.b", "a-b", "_a", "$a", "a+b", "a@b", "a:b", "a'b", 'a"b', "a&b=c", "a;b", "a,b", "(a)", "[a]", "*", "~a", "1", "ls", "schema", "information_schema", "file", "!", "^", "|", "<a>", "{a}",
         "a\\b", "None", "null", "a.json", "..a", "a..", "http:", "true", "x" * 64]
AB = ("a", "b")
ROOTS = {"mysql": ["mysql://h", "mysql://u:p@h", "mysql://u:p@h:3307", "mysql://h/"], "postgresql": ["postgresql://h", "postgresql://u:p@h:6543", "postgresql://u@h/"],
         "snowflake": ["snowflake://h", "snowflake://u:p@h"], "bigquery": ["bigquery://"], "hive": ["thrift+hms://h", "thrift+hms://h:9084", "thrift+hms://u:p@h/"],
         "csr": ["http+csr://h", "https+csr://u:p@h:8081", "http+csr://h/", "http+csr://h/prefix"], "sqlite": ["sqlite:///{d}/x.db"], "file": ["file:///"]}
DEPTH = {"mysql": 2, "postgresql": 3, "snowflake": 3, "bigquery": 3, "hive": 2, "csr": 1, "sqlite": 1, "file": 2}
W = {}


def BOUNDS(tier):
    return {"kinds": len(DEPTH), "special names": len(NAMES), "objects per level": 2, "shapes of three levels": 676, "entry points": len(ENTRIES), "pairs of names": "neighbours in the list" if tier == "quick" else "all"}


def shapes(depth):
    """All trees of the depth with names in {a, b}."""
    if depth == 0:
        return [True]
    sub = [None] + shapes(depth - 1)
    return [{n: x for n, x in zip(AB, c) if x is not None} for c in itertools.product(sub, repeat=2)]


def chain(depth, level, names):
    """One object per level, but all the names at one level (and the last level below each)."""
    if depth == 0:
        return True
    return {n: chain(depth - 1, level - 1, names) for n in (names if level == 0 else ("a",))}


def cases(tier):
    for kind, d in DEPTH.items():
        ts = shapes(d)
        for i in range(0, len(ts), 26):
            for e in ENTRIES if len(ts) < 100 else ENTRIES[:1]:
                yield {"kind": kind, "shapes": [i, min(i + 26, len(ts))], "entry": e}
        if len(ts) >= 100:
            for e in ENTRIES[1:]:
                yield {"kind": kind, "shapes": [0, 26], "entry": e}
                yield {"kind": kind, "shapes": [650, 676], "entry": e}
        for level in range(d):
            for e in ENTRIES:
                yield {"kind": kind, "level": level, "entry": e, "all": tier != "quick"}


def start_worker(ctx):
    W["d"] = d = os.path.join(SCRATCH, f"c33-{os.getpid()}")
    os.makedirs(d)
    F.install()
    F.Universe.current = F.Universe({})
    W["home"] = {}


def leaf(kind, path):
    """A table whose only column tells which one it is."""
    name = "c_" + "".join(f"{len(p)}_" + "".join(f"{ord(c):x}_" for c in p[:8]) for p in path)
    if kind == "bigquery":
        from google.cloud.bigquery import SchemaField
        return [SchemaField(name, "INTEGER")], name
    if kind == "hive":
        from pymetastore.htypes import HPrimitiveType, PrimitiveCategory
        from pymetastore.metastore import HColumn, HTable
        return (HTable(database_name=path[0], name=path[1], table_type="MANAGED_TABLE", columns=[HColumn(name, HPrimitiveType(PrimitiveCategory.INT))], partition_columns=[], storage=None, parameters={}), []), name
    if kind == "csr":
        return ("AVRO", json.dumps({"type": "record", "name": "r", "fields": [{"name": name, "type": "int"}]})), name
    return [{"column_name": name, "is_nullable": "NO", "data_type": "NUMBER" if kind == "snowflake" else "int" if kind == "mysql" else "integer", "column_default": None, "numeric_precision": 10, "numeric_scale": 0}], name


def build(kind, tree):
    """Make the source; -> {path: set of children, or the column's name}"""
    nodes = {}

    def walk(t, path):
        if t is True:
            v, nodes[path] = leaf(kind, path)
            return v
        nodes[path] = {rename(kind, n, len(path)) for n in t}
        return {rename(kind, n, len(path)): walk(s, path + (rename(kind, n, len(path)),)) for n, s in t.items()}
    built = walk(tree, ())
    if kind in ("sqlite", "file"):
        shutil.rmtree(W["d"])
        os.makedirs(W["d"])
    if kind == "sqlite":
        c = F.real_sqlite_connect(W["d"] + "/x.db")
        c.execute("PRAGMA synchronous = OFF")
        for t in built:
            quoted = t.replace('"', '""')
            c.execute(f'CREATE TABLE "{quoted}" ({nodes[(t,)]} INTEGER)')
        c.commit()
        c.close()
    elif kind == "file":
        for dn, fs in built.items():
            os.makedirs(f"{W['d']}/{dn}")
            for fn in fs:
                with open(f"{W['d']}/{dn}/{fn}", "w") as f:
                    f.write(json.dumps({"type": "record", "name": "r", "fields": [{"name": nodes[dn, fn], "type": "int"}]}))
    else:
        F.Universe.current.tree = {kind: built}
    return nodes


def rename(kind, n, level):
    if kind == "csr":
        return n + "-value" if n != "b" else "b-key"
    if kind == "file" and level == 1:
        return n + ".avsc"
    return n


def usable(kind, n, level):
    if kind == "sqlite" and n.lower() == "a" and n != "a":
        return False                         # names of tables don't differ by case only
    return True


def perform(entry, m, url):
    cmd, cli, app = W["parts"]
    try:
        if entry.startswith("library"):
            return ("ok", (cmd.ls if m == "ls" else cmd.schema)(url, strict=entry.endswith("strict")) if url else cmd.ls())
        if entry == "cli":
            from typer.testing import CliRunner
            r = CliRunner().invoke(cli.app, [m] + ([url] if url else []))
            if r.exit_code:
                return ("err", repr(r.exception))
            return ("ok", json.loads(r.stdout) if r.stdout.strip() else [])
        r = request(app, "GET", f"/gateway/{m}/{quote(url or '', safe='/:@')}")
        return ("ok", r.json()) if r.status == 200 else ("err", str(r.brief()))
    except Exception as e:
        return ("err", repr(e)[:300])


def navigate(kind, root, tree, entry, ctx):
    conf = root.replace("{d}", W["d"])
    nodes = build(kind, tree)
    if W.get("conf") != conf:
        # another root, so that the right one has to be chosen
        cmd = F.fresh([conf, "mysql://z:z@other:1" if kind != "mysql" else "postgresql://z:z@other/x"])
        W["conf"], W["parts"] = conf, (cmd, importlib.import_module("recap.cli"), importlib.import_module("recap.server.app").app)
    r = perform(entry, "ls", None)
    ctx.count(transitions=1)
    if r[0] != "ok" or not isinstance(r[1], list) or len(r[1]) != 2:
        ctx.fail(f"roots:{kind}:{entry.replace(' ', '-')}", f"{conf}: roots are {r}")
        return
    start = r[1][0]
    if kind == "file":
        r = perform(entry, "ls", start)
        if r[0] != "ok" or not isinstance(r[1], list) or sorted(r[1]) != sorted(os.listdir("/")):
            ctx.fail(f"ls:file:root:{entry.replace(' ', '-')}", f"{entry}: {start!r} lists {r}, want {sorted(os.listdir('/'))}")
            return
        start += W["d"]                      # not the whole file system
    # every URL that's reachable by appending what is listed
    todo, seen = [((), start)], {}
    while todo:
        path, url = todo.pop()
        want = nodes.get(path)
        m = "ls" if isinstance(want, set) else "schema"
        r = perform(entry, m, url)
        ctx.count(transitions=1)
        ctx.outcome(m)
        key = f"{m}:{kind}:{len(path)}:{entry.replace(' ', '-')}"
        if r[0] != "ok":
            ctx.fail(key, f"root {conf}, {entry}: {m} {url!r} (listed by its parent) fails: {r[1]}")
            continue
        if m == "ls":
            got = r[1]
            if not isinstance(got, list) or sorted(got) != sorted(want):
                ctx.fail(key, f"root {conf}, {entry}: {url!r} lists {got}, want {sorted(want)}")
                continue
            seen[path] = url
            todo += [(path + (n,), f"{url}/{n}") for n in got]
        else:
            got = [f.get("name") if isinstance(f, dict) else f for f in r[1].get("fields", ())]
            if got != [want]:
                ctx.fail(key, f"root {conf}, {entry}: the schema of {url!r} has the fields {got}, want {[want]} ({path})")
                continue
            seen[path] = url
    ctx.count(states=len(seen), traces=1)
    if not ctx.nfails and len(seen) != len(nodes):
        ctx.fail(f"lost:{kind}", f"{conf}: {set(nodes) - set(seen)}")


def run_case(case, ctx):
    kind, entry = case["kind"], case["entry"]
    d = DEPTH[kind]
    if "shapes" in case:
        for root in ROOTS[kind]:
            for t in shapes(d)[slice(*case["shapes"])]:
                navigate(kind, root, t, entry, ctx)
        return
    names = [n for n in NAMES if usable(kind, n, case["level"])]
    pairs = itertools.permutations(names, 2) if case["all"] else zip(names, names[1:] + names[:1])
    for root in ROOTS[kind][:2]:
        for n in names:
            navigate(kind, root, chain(d, case["level"], [n]), entry, ctx)
        for p in pairs:
            navigate(kind, root, chain(d, case["level"], p), entry, ctx)
        # the same name at every level
        for n in names:
            t = True
            for _ in range(d):
                t = {n: t}
            navigate(kind, root, t, entry, ctx)
        navigate(kind, root, chain(d, case["level"], names), entry, ctx)
