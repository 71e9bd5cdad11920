"""CLI, HTTP gateway and library give the requested format of the same schema."""
import importlib, itertools, json, os, re
from urllib.parse import quote
from mc import fakedb as F
from mc.asgi import request
from mc.jail import SCRATCH

PID = "C14"
RULE = ("every on-disk source schema of the catalogue x every output format x every entry point (library strict / not strict, command "
        "line with each spelling of the option, HTTP with each content type) compared with converting the schema directly; every ordered "
        "pair of (source, format, entry point) requests in one process; unknown content types; not configured sources; listings of "
        "every directory / database and of the configured roots through all entry points")
ASSUMPTIONS = ["sources are files and SQLite databases in a scratch directory; other sources share the same code above the client (C13)"]
FORMATS = {"avro": "application/avro+json", "json": "application/schema+json", "protobuf": "application/x-protobuf",
           "recap": "application/x-recap+json"}
UNKNOWN = ["application/json", "text/plain", "application/avro", "application/schema", "application/x-recap", "application/protobuf",
           "avro", "json", "recap", "*/*", "application/avro+jsonx", "xapplication/avro+json", "application/x-www-form-urlencoded"]
# spellings on which a server may reasonably do either
EITHER = [(f + s, n) for n, f in FORMATS.items() for s in ("; charset=utf-8", ";")] + [(f.upper(), n) for n, f in FORMATS.items()]
W = {}
LONG = "a_very_long_name_that_does_not_fit_on_a_terminal_line_of_eighty_characters_at_all_really_not"
NAMES = ["a", "_sa_x", "_sa", "type", "name", LONG, "A B", "é", "[bold]x[/bold]", "[red]", ":smile:", "x]", "\\[x"]
COLS = ["INTEGER", "INTEGER NOT NULL", "INTEGER DEFAULT 5", "REAL NOT NULL", "TEXT", "TEXT NOT NULL DEFAULT '[red]'", "VARCHAR(10) NOT NULL",
        "BLOB", "BLOB(9) NOT NULL", "NUMERIC(10,2) NOT NULL", "NUMERIC", "BIGINT NOT NULL DEFAULT 0"]


def BOUNDS(tier):
    return {"sources": len(list(tables())) + len(FILES), "formats": 4, "entry_points": 7, "pair_sources": PAIRN[tier]}


PAIRN = {"quick": 4, "thorough": 14}


def tables():
    for i, c in enumerate(COLS):
        yield f"c{i}", [("a", c)]
    for i, n in enumerate(NAMES):
        yield f"n{i}", [(n, "INTEGER NOT NULL"), ("z", "INTEGER")]
    for i, (c, d) in enumerate(itertools.permutations([COLS[0], COLS[1], COLS[3], COLS[6], COLS[9]], 2)):
        yield f"p{i}", [("z", c), ("a", d)]
    yield "wide", [(f"{LONG}_{i}", c) for i, c in enumerate(COLS)]


def rec(n, fields):
    return json.dumps({"type": "record", "name": n, "fields": fields})


FILES = {
    "a1.avsc": rec("r", [{"name": "a", "type": "int"}]),
    "a2.avsc": rec("r", [{"name": "a", "type": ["null", "string"], "default": None, "doc": "[bold]d[/bold] :smile:"}, {"name": "b", "type": {"type": "array", "items": "long"}}]),
    "a3.avsc": rec("n.s.r", [{"name": "e", "type": {"type": "enum", "name": "E", "symbols": ["X", "Y"]}}, {"name": "m", "type": {"type": "map", "values": "boolean"}}]),
    "a4.avsc": rec("r", [{"name": "l", "type": ["null", "r"], "default": None}]),
    "a5.avro": rec("r", [{"name": "a", "type": "float"}, {"name": "c", "type": "double"}, {"name": "b", "type": "bytes"}]),
    "j1.json": json.dumps({"type": "object", "properties": {"a": {"type": "integer"}, "_sa_b": {"type": "string"}}, "required": ["a"]}),
    "j2.json": json.dumps({"type": "object", "properties": {"o": {"type": "object", "properties": {"x": {"type": "boolean"}}}, "l": {"type": "array", "items": {"type": "number"}}}}),
    "j3.jsonschema": json.dumps({"type": "object", "properties": {"z": {"type": "integer", "default": 3, "description": "é [x]"}, "a": {"type": "boolean"}}}),
    "p1.proto": 'syntax = "proto3";\npackage p;\nmessage M { int32 a = 1; repeated int64 b = 2; map<int32, bool> c = 3; bool d = 4; }\n',
    "p2.proto": 'syntax = "proto3";\nmessage M { N n = 1; E e = 2; }\nmessage N { double x = 1; }\nenum E { A = 0; B = 1; }\n',
    "p3.proto": 'syntax = "proto3";\npackage a.b;\nmessage M { int32 %s = 1; repeated bool %s_2 = 2; N n = 3; }\nmessage N { double %s = 1; }\n' % (LONG, LONG, LONG),
    "a6.avsc": rec("n.s.r", [{"name": LONG, "type": "int"}, {"name": "x", "type": "long"}]),
    "bad.avsc": "{", "bad.json": '{"type": "array"}', "bad.proto": "message {", "bad.txt": "x",
}


def start_worker(ctx):
    d = os.path.join(SCRATCH, f"c14-{os.getpid()}")
    os.makedirs(d + "/empty")
    os.chdir(d)
    F.install()
    for n, t in FILES.items():
        open(os.path.join(d, n), "w").write(t)
    c = F.real_sqlite_connect(d + "/x.db")
    for n, cols in tables():
        c.execute("CREATE TABLE %s (%s)" % (n, ", ".join('"%s" %s' % (a.replace('"', '""'), b) for a, b in cols)))
    c.commit()
    c.close()
    W["d"] = d


def load(urls):
    W["cmd"] = F.fresh(urls)
    W["cli"] = importlib.import_module("recap.cli")
    W["app"] = importlib.import_module("recap.server.app").app
    W["urls"] = urls


def sources():
    for n, _ in tables():
        yield "sqlite", n
    for f in FILES:
        yield "file", f


def url(src):
    return f"sqlite:///{W['d']}/x.db/{src[1]}" if src[0] == "sqlite" else f"file://{W['d']}/{src[1]}"


def cases(tier):
    for s in sources():
        yield {"src": s}
    pick = [("sqlite", "c1"), ("file", "a3.avsc"), ("file", "j2.json"), ("file", "p2.proto"), ("file", "a4.avsc"), ("sqlite", "wide"), ("file", "j1.json"),
            ("file", "a2.avsc"), ("file", "p1.proto"), ("file", "bad.avsc"), ("sqlite", "p3"), ("sqlite", "c5"), ("file", "j3.jsonschema"), ("file", "a1.avsc")][:PAIRN[tier]]
    for s in pick:
        yield {"pairs": [s, pick]}
    yield {"ls": 1}
    yield {"unconf": 1}


def norm(x):
    return json.dumps(x)          # keeps key order


def reference(src, fmt):
    """Convert the schema directly, with new objects."""
    from recap.types import to_dict
    try:
        if src[0] == "sqlite":
            from recap.clients.sqlite import SQLiteClient
            with F.real_sqlite_connect(W["d"] + "/x.db") as c:
                st = SQLiteClient(c).schema(src[1])
        else:
            text = FILES[src[1]]
            ext = src[1].split(".")[1]
            if ext in ("avsc", "avro"):
                from recap.converters.avro import AvroConverter as C
            elif ext in ("json", "jsonschema"):
                from recap.converters.json_schema import JSONSchemaConverter as C
            elif ext == "proto":
                from recap.converters.protobuf import ProtobufConverter as C
            else:
                raise ValueError(ext)
            st = C().to_recap(text)
        if fmt == "recap":
            return ("ok", norm(to_dict(st)))
        if fmt == "avro":
            from recap.converters.avro import AvroConverter
            return ("ok", norm(AvroConverter().from_recap(st)))
        if fmt == "json":
            from recap.converters.json_schema import JSONSchemaConverter
            return ("ok", norm(JSONSchemaConverter().from_recap(st)))
        from recap.converters.protobuf import ProtobufConverter
        from proto_schema_parser.generator import Generator
        return ("ok", norm(Generator().generate(ProtobufConverter().from_recap(st)).rstrip("\n")))
    except Exception as e:
        return ("err",)


def lib(u, fmt, strict):
    cmd = W["cmd"]
    try:
        r = cmd.schema(u, cmd.SchemaFormat(fmt), strict=strict) if fmt else cmd.schema(u, strict=strict)
        return ("ok", norm(r.rstrip("\n") if isinstance(r, str) else r))
    except Exception:
        return ("err",)


def cli(args, fmt):
    from typer.testing import CliRunner
    r = CliRunner().invoke(W["cli"].app, args)
    if r.exit_code != 0 or r.exception:
        if r.exit_code == 0:
            return ("exit 0 with error",)
        return ("err",)
    out = r.stdout
    if fmt == "protobuf":
        return ("ok", norm(out.rstrip("\n")))
    try:
        return ("ok", norm(json.loads(out)) if out.strip() else "nothing")
    except ValueError:
        return ("not JSON", out)


def http(u, ctype, fmt, what="schema"):
    r = request(W["app"], "GET", f"/gateway/{what}" + (f"/{quote(u, safe='/:@')}" if u is not None else ""), ctype=ctype)
    if r.status in (307, 308):
        from urllib.parse import urlsplit
        r = request(W["app"], "GET", urlsplit(r.headers["location"]).path, ctype=ctype)
    if r.status != 200:
        return ("err", r.status)
    x = r.json() if "json" in r.headers.get("content-type", "") else r.body.decode()
    return ("ok", norm(x.rstrip("\n") if isinstance(x, str) else x))


def points(u, fmt):
    for strict in (True, False):
        yield f"library(strict={strict})", lambda s=strict: lib(u, fmt, s)
    for o in ("-of", "--output-format"):
        yield f"recap schema {o} {fmt}", lambda o=o: cli(["schema", u, o, fmt], fmt)
    yield f"GET {FORMATS[fmt]}", lambda: http(u, FORMATS[fmt], fmt)
    if fmt == "recap":
        yield "library default", lambda: lib(u, None, False)
        yield "recap schema", lambda: cli(["schema", u], "recap")
        yield "GET default", lambda: http(u, None, "recap")


def same(ref, got):
    return ref == got if ref[0] == "ok" else got[0] == "err"


def run_case(case, ctx):
    d = W["d"]
    conf = ["file:///", f"sqlite:///{d}/x.db"]
    if W.get("urls") != conf:
        load(conf)

    def cmp(label, ref, got, key):
        ctx.count(transitions=1)
        ctx.outcome(ref[0])
        if not same(ref, got):
            ctx.fail(key, f"{label}\n got {got}\nwant {ref}")

    if "src" in case:
        u = url(case["src"])
        ctx.count(states=1, traces=1)
        for fmt in FORMATS:
            ref = reference(case["src"], fmt)
            for name, f in points(u, fmt):
                got = f()
                if name.startswith("GET") and ref[0] == "err" and got[0] == "err" and got[1] < 400:
                    got = ("status", got)
                cmp(f"{name} {u}", ref, got, f"format:{name}:{fmt}")
        rec = reference(case["src"], "recap")
        for ct in UNKNOWN:
            got = http(u, ct, "recap")
            ctx.count(transitions=1)
            if got[0] != "err" or got[1] != 415:
                ctx.fail(f"ctype:{ct}", f"unknown content type {ct} on {u}: {got}")
        for ct, fmt in EITHER:
            got = http(u, ct, fmt)
            ctx.count(transitions=1)
            if not (got == ("err", 415) or same(reference(case["src"], fmt), got)):
                ctx.fail(f"ctype:{ct}", f"content type {ct} on {u}: {got}")
        return
    if "pairs" in case:
        s, pick = case["pairs"]
        refs = {}
        for t in [s] + pick:
            for f in FORMATS:
                refs[(tuple(t), f)] = reference(tuple(t), f)
        pts = [(tuple(t), f) for t in pick for f in FORMATS]
        for (f0, (t, f1)) in itertools.product(FORMATS, pts):
            for (n0, p0), (n1, p1) in itertools.product([x for x in points(url(s), f0)][1::2], [x for x in points(url(t), f1)][1::2]):
                ctx.count(states=1)
                p0()
                cmp(f"{n0} {url(s)} then {n1} {url(t)}", refs[(t, f1)], p1(), f"pair:{n0}:{n1}")
        return
    if "ls" in case:
        want = {f"file://{d}": sorted(os.listdir(d)), f"file://{d}/empty": [], f"sqlite:///{d}/x.db": sorted(n for n, _ in tables())}
        for u, exp in want.items():
            e = ("ok", norm(exp))
            def s(r):
                if r == ("ok", "nothing"):
                    return ("ok", "[]")
                return (r[0], norm(sorted(json.loads(r[1])))) if r[0] == "ok" else r
            cmp(f"library ls {u}", e, s(("ok", norm(W["cmd"].ls(u)))), "ls")
            cmp(f"library ls {u}", e, s(("ok", norm(W["cmd"].ls(u, strict=False)))), "ls")
            cmp(f"recap ls {u}", e, s(cli(["ls", u], "recap")), "ls")
            cmp(f"GET ls {u}", e, s(http(u, None, "recap", "ls")), "ls")
        for u in (f"file://{d}/nope", f"sqlite:///{d}/x.db/c0/c1", "nope://x"):
            for name, got in (("recap ls", cli(["ls", u], "recap")), ("GET", http(u, None, "recap", "ls"))):
                cmp(f"{name} {u}", ("err",), got, "ls")
        for urls in ([], ["file:///"], ["mysql://u:p@h:1/db", "file:///", "sqlite:///x.db"], ["postgresql://a:b@h/x?y=1#z", "postgresql://h"]):
            load(urls)
            exp = [re.sub(r"//[^/@]*@", "//", str(x)) for x in W["cmd"].settings.safe_urls]
            e = ("ok", norm(exp))
            cmp(f"library roots {urls}", e, ("ok", norm(W["cmd"].ls())), "roots")
            got = cli(["ls"], "recap")
            cmp(f"recap ls roots {urls}", e, ("ok", "[]") if got == ("ok", "nothing") else got, "roots")
            for p in (None, ""):
                cmp(f"GET roots {urls}", e, http(p, None, "recap", "ls"), "roots")
            if len(exp) != len(urls):
                ctx.fail("roots", f"{urls} lists {exp}")
            ctx.count(states=1, traces=1)
        return
    # not configured: refused by the server, read by the command line
    for urls in ([], ["mysql://h/db"], [f"sqlite:///{d}/other.db"]):
        load(urls)
        for src in (("sqlite", "c1"), ("file", "a1.avsc"), ("file", "j2.json")):
            u = url(src)
            ctx.count(states=1, traces=1)
            for fmt, ct in FORMATS.items():
                ref = reference(src, fmt)
                cmp(f"CLI {u}", ref, cli(["schema", u, "-of", fmt], fmt), "unconfigured-cli")
                cmp(f"lib {u}", ref, lib(u, fmt, False), "unconfigured-lib")
                cmp(f"lib strict {u}", ("err",), lib(u, fmt, True), "unconfigured-strict")
                cmp(f"GET {u}", ("err",), http(u, ct, fmt), "unconfigured-http")
            cmp(f"GET ls {u}", ("err",), http(f"sqlite:///{d}/x.db", None, "recap", "ls"), "unconfigured-ls")
