"""End to end: URL -> client -> connection arguments -> object, for every supported scheme."""
import itertools, json, os
from urllib.parse import unquote
from mc import urls as U
from mc import fakedb as F
from mc.jail import SCRATCH

PID = "C13"
RULE = ("full product scheme x authority form x path depth x option/redirecting query x {ls, schema} x {not configured, configured "
        "with credentials and options (strict / not strict), another root configured} through the real command functions with "
        "recording drivers; connection arguments and the listed / read object are compared with a reference dispatch table")
ASSUMPTIONS = ["drivers behave as their documentation says about connection arguments; SQL is executed by sqlite on mimicked "
               "catalog tables", "path components beyond the deepest object and percent-encoded path components are outside the bound"]

D = {}


def col(name, **k):
    return {"column_name": name, "is_nullable": "NO", "data_type": "int", "column_default": None} | k


def start_worker(ctx):
    F.install()
    from google.cloud.bigquery import SchemaField
    from pymetastore.metastore import HTable
    from pymetastore.htypes import HPrimitiveType, PrimitiveCategory
    from pymetastore.metastore import HColumn
    tree3 = {c: {s: {t: [col(f"{c}_{s}_{t}"), col("b"), col("a")] for t in ("t", "t2", "a+b c")} for s in ("s", "s2", "t")} for c in ("db", "db2", "t", "d b", "Dü")}
    snow = {c: {s: {t: [x | {"data_type": "number"} for x in v] for t, v in b.items()} for s, b in a.items()} for c, a in tree3.items()}
    tree2 = {s: {t: [col(f"{s}_{t}"), col("b"), col("a")] for t in ("t", "t2")} for s in ("db", "db2", "t")}
    bq = {p: {d: {t: [SchemaField(f"{p}_{d}_{t}", "INTEGER"), SchemaField("b", "STRING")] for t in ("t", "t2")} for d in ("s", "s2", "t")} for p in ("db", "db2", "t")}
    it = HPrimitiveType(PrimitiveCategory.INT)
    def ht(d, t):
        return HTable(database_name=d, name=t, table_type="MANAGED_TABLE", columns=[HColumn(f"{d}_{t}", it), HColumn("b", it)],
                      partition_columns=[], storage=None, parameters={})
    hive = {d: {t: (ht(d, t), []) for t in ("t", "t2")} for d in ("db", "db2", "t")}
    rec = lambda n: json.dumps({"type": "record", "name": "r", "fields": [{"name": n, "type": "int"}, {"name": "b", "type": "int"}]})
    csr = {"t-value": ("AVRO", rec("t_value")), "t-key": ("AVRO", rec("t_key")), "t2-value": ("AVRO", rec("t2_value")), "t": ("AVRO", rec("wrong")), "t-key-a": ("AVRO", rec("wrong")), "t-key-a-value": ("AVRO", rec("t_key_a_value")),
           "t-value-b-key": ("JSON", json.dumps({"type": "object", "properties": {"t_value_b_key": {"type": "integer"}, "b": {"type": "string"}}})), "a-valued-value": ("PROTOBUF", 'syntax = "proto3"; message M { int32 a_valued_value = 1; string b = 2; }'),
           "key-value": ("AVRO", rec("key_value")), "x-value": ("XML", "<x/>"), "y-value": ("avro", rec("y_value")), "K-KEY-value": ("AVRO", rec("K_KEY_value"))}
    F.Universe.current = F.Universe({"postgresql": tree3, "snowflake": snow, "mysql": tree2, "bigquery": bq, "hive": hive, "csr": csr})
    d = os.path.join(SCRATCH, f"c13-{os.getpid()}")
    os.makedirs(os.path.join(d, "sub"))
    os.chdir(d)
    for f in ("x.db", "sub/x.db"):
        c = F.real_sqlite_connect(os.path.join(d, f))
        for t in ("t", "t2"):
            c.execute(f"CREATE TABLE {t} ({f.replace('/', '_').replace('.', '_')}_{t} INTEGER, b TEXT)")
        c.commit()
        c.close()
    os.makedirs(os.path.join(d, "s p\u00fc+"))
    open(os.path.join(d, "s p\u00fc+", "{q}.avsc"), "w").write(rec("f_q"))
    for n in ("u.avsc", "sub/v.avsc"):
        open(os.path.join(d, n), "w").write(rec("f_" + n[-6]))
    open(os.path.join(d, "w.json"), "w").write(json.dumps({"type": "object", "properties": {"f_w": {"type": "integer"}}}))
    open(os.path.join(d, "p.proto"), "w").write('syntax = "proto3";\nmessage M { int32 f_p = 1; }\n')
    for n in ("README", "y.txt", "a.avsc.bak", ".avsc"):
        open(os.path.join(d, n), "w").write(rec("x"))
    for n in ("bad.avsc", "bad.json", "bad.proto"):
        open(os.path.join(d, n), "w").write("{")
    D["d"] = d
    D["files"] = set(os.listdir(d))


# authority forms: (user, password, host, port)
AUTH = [(None, None, "h", None), (None, None, "h", 1234), ("me", "pw", "h", None), ("me", "pw", "h", 1234), ("me", None, "h", None),
        ("m@e", "p/w:%", "h", 1), (" m+e ", "\tp+w\n ", "h", None)]
OPTS = {"mysql": [("connection_timeout", "5")], "postgresql": [("sslmode", "require"), ("application_name", "a b")],
        "snowflake": [("warehouse", "wh"), ("role", "r")], "csr": [("ssl.ca.location", "/x/ca.crt")], "hive": [("include_stats", "1")],
        "bigquery": [], "sqlite": [("timeout", "7")], "file": []}
REDIR = [("host", "evil"), ("port", "66"), ("user", "evil"), ("password", "evil"), ("username", "evil"), ("database", "evil"), ("dbname", "evil"),
         ("url", "http://evil"), ("scheme", "file"), ("paths", "evil"), ("path", "evil"), ("netloc", "evil"), ("hostname", "evil"),
         ("account", "evil"), ("schema", "evil"), ("table", "evil")]
# what the drivers' documentation lists besides host, port, user, password and database
DRIVER_OPTS = {
    "postgresql": "passfile channel_binding connect_timeout client_encoding options application_name fallback_application_name keepalives keepalives_idle keepalives_interval "
                  "keepalives_count tcp_user_timeout replication gssencmode sslmode sslcompression sslcert sslkey sslpassword sslrootcert sslcrl sslcrldir sslsni requirepeer "
                  "ssl_min_protocol_version ssl_max_protocol_version krbsrvname gsslib service target_session_attrs",
    "mysql": "charset collation connection_timeout connect_timeout compress auth_plugin ssl_ca ssl_cert ssl_key ssl_verify_cert ssl_verify_identity ssl_disabled tls_versions tls_ciphersuites "
             "use_unicode autocommit time_zone sql_mode get_warnings raise_on_warnings client_flags buffered raw consume_results pool_size pool_name pool_reset_session use_pure force_ipv6 "
             "allow_local_infile krb_service_principal init_command converter_str_fallback",
    "snowflake": "warehouse role authenticator token passcode private_key_file login_timeout network_timeout autocommit client_session_keep_alive timezone validate_default_parameters application region protocol",
    "csr": "ssl.ca.location ssl.key.location ssl.certificate.location basic.auth.user.info"}
SQLITE_OPTS = [("timeout", "7", 7.0), ("timeout", "0.5", 0.5), ("detect_types", "1", 1), ("cached_statements", "10", 10), ("isolation_level", "IMMEDIATE", "IMMEDIATE")] + \
              [(k, v, b) for k in ("check_same_thread", "uri") for v, b in (("1", True), ("true", True), ("0", False), ("false", False), ("no", False), ("off", False), ("False", False))]
SCHEMES = {"mysql": "mysql", "postgresql": "postgresql", "snowflake": "snowflake", "http+csr": "csr", "https+csr": "csr", "thrift+hms": "hive"}
PATHS = {"mysql": [[], ["db"], ["db2"], ["db", "t"], ["db2", "t2"], ["t", "t"]],
         "postgresql": [[], ["db"], ["t", "t"], ["t", "t", "t"], ["db", "s"], ["db2", "s2"], ["db", "s", "t"], ["db2", "s2", "t2"], ["db", "s2", "t"], ["d b", "s", "a+b c"], ["Dü", "s2", "t"], ["d b"]],
         "csr": [[], ["t"], ["t-key"], ["pre", "t"], ["pre", "fix", "t2"], ["t-value"], ["t", "t"], ["t2", "x", "t2"], ["t-key-a"], ["t-value-b-key"], ["a-valued"], ["key"], ["x"], ["y"], ["K-KEY"]],
         "hive": [[], ["db"], ["db2"], ["db", "t"], ["db2", "t2"], ["db", "t2"], ["t", "t"]],
         "bigquery": [[], ["db"], ["t", "t"], ["t", "t", "t"], ["db", "s"], ["db2", "s2"], ["db", "s", "t"], ["db2", "s2", "t2"]]}
PATHS["snowflake"] = PATHS["postgresql"]
# configuration: None, or (user, password, path comps prefix or None, with option)
CONFS = [None, ("root", "top", 0), ("r%40t", "t%2Fp", 1), ("%20r+t%09", "%20t%2Bp+%0A", 0), ("root", "top", "other")]
BADSCHEMES = ["nope", "http", "https", "mysql+pymysql", "postgres", "csr", "thrift", "jdbc", "s3", "http+", "a+b+c", "sqlite+x", "filex"]


def BOUNDS(tier):
    return {"schemes": len(SCHEMES) + 3, "authorities": len(AUTH), "redirecting_options": len(REDIR), "configurations": len(CONFS),
            "pairs_of_options": tier != "quick"}


def cases(tier):
    for sch in SCHEMES:
        for ci in range(len(CONFS)):
            yield {"scheme": sch, "conf": ci, "pairs": tier != "quick"}
    for drv in DRIVER_OPTS:
        yield {"options": drv}
    yield {"bigquery": 1}
    yield {"sqlite": 1}
    yield {"sqlite_options": 1}
    yield {"file": 1}
    yield {"bad": 1}


def queries(drv, pairs):
    yield []
    o = OPTS[drv]
    if o:
        yield o
    for r in REDIR:
        yield [r]
        if o:
            yield o + [r]
    if pairs:
        for a, b in itertools.combinations(REDIR, 2):
            yield [a, b]


def q(s):
    from urllib.parse import quote
    return quote(s, safe="")


def userinfo(u, p):
    if u is None:
        return None
    return q(u) + (":" + q(p) if p is not None else "")


def expected_object(drv, method, comps):
    """('ls', names) / ('schema', field names) / None when the URL does not name such an object / 'any'."""
    tr = F.Universe.current.tree.get(drv)
    n = len(comps)
    if drv in ("postgresql", "snowflake", "bigquery"):
        if method == "ls":
            if n == 0:
                return ("ls", sorted(tr))
            if n == 1:
                return ("ls", sorted(tr[comps[0]]))
            if n == 2:
                return ("ls", sorted(tr[comps[0]][comps[1]]))
            return None
        if n == 3:
            cols = tr[comps[0]][comps[1]][comps[2]]
            return ("schema", [c.name if drv == "bigquery" else c["column_name"] for c in cols])
        return None
    if drv == "mysql":
        if method == "ls":
            return ("ls", sorted(tr)) if n == 0 else ("ls", sorted(tr[comps[0]])) if n == 1 else "any"
        return ("schema", [c["column_name"] for c in tr[comps[0]][comps[1]]]) if n == 2 else None
    if drv == "hive":
        if method == "ls":
            return ("ls", sorted(tr)) if n == 0 else ("ls", sorted(tr[comps[0]])) if n == 1 else ("ls", [comps[1]])
        return ("schema", [c.name for c in tr[comps[0]][comps[1]][0].columns]) if n == 2 else None
    if drv == "csr":
        if method == "ls":
            return ("ls", sorted(tr))
        if n == 0:
            return None
        s = comps[-1] if comps[-1].endswith(("-key", "-value")) else comps[-1] + "-value"
        if tr[s][0] not in ("AVRO", "JSON", "PROTOBUF"):
            return None                             # not a schema Recap reads
        return ("schema", [s.replace("-", "_"), "b"])


def run_one(cmd, method, url, strict, ctx):
    F.CALLS.clear()
    ctx.count(states=1, transitions=1)
    try:
        r = cmd.ls(url, strict=strict) if method == "ls" else cmd.schema(url, strict=strict)
        if method == "ls":
            return ("ls", sorted(r)), list(F.CALLS)
        return ("schema", [f.get("name") for f in r["fields"]]), list(F.CALLS)
    except Exception as e:
        return ("error", f"{type(e).__name__}: {e}"), list(F.CALLS)


def check(cmd, method, url, strict, ctx, obj, drv, conn):
    """obj: expected object, conn: dict of connection expectations (callable checks)"""
    got, calls = run_one(cmd, method, url, strict, ctx)
    w = f"{method} {url} (strict={strict}): "
    if obj == "any":
        return
    if obj is None:
        ctx.outcome("refused")
        if got[0] != "error":
            ctx.fail("accepted", w + f"must be refused, returned {got}; connections {calls}")
        return
    ctx.count(traces=1)
    ctx.outcome("reached-" + drv)
    if got != obj:
        ctx.fail("object", w + f"expected {obj}, got {got}; connections {calls}")
        return
    if not calls:
        if conn is not None:
            ctx.fail("no-connection", w + "no connection made")
        return
    if [c[0] for c in calls] != [drv]:
        ctx.fail("driver", w + f"connected to {calls}")
        return
    k = {a: b for a, b in calls[0][1].items() if b is not None}
    if drv in ("mysql", "snowflake") and "port" in calls[0][1] and "port" not in k:
        ctx.fail("connection", w + "the driver fails when the port is None")
        return
    for name, exp in conn.items():
        have = k.get(name)
        if not exp(have):
            ctx.fail("connection", w + f"connection argument {name}={have!r} is wrong; all arguments {k}")


def eq(v, orq=None):
    """v is required; when the URL says nothing (None) the driver default or the query's value may apply."""
    def f(x):
        if v is None:
            return x is None or (orq is not None and str(x) == orq)
        return str(x) == str(v)
    return f


def connection(drv, scheme, user, pw, host, port, comps, query, method):
    qd = dict(query)
    if drv in ("mysql", "postgresql"):
        dbk = "database" if drv == "mysql" else "dbname"
        e = {"host": eq(host), "port": eq(port, qd.get("port")), "user": eq(user, qd.get("user")), "password": eq(pw, qd.get("password")),
             dbk: eq(comps[0] if comps else None, qd.get(dbk))}
    elif drv == "snowflake":
        e = {"account": eq(host), "port": eq(port, qd.get("port")), "user": eq(user, qd.get("user")), "password": eq(pw, qd.get("password")),
             "database": eq(comps[0] if comps else None, qd.get("database"))}
    elif drv == "hive":
        return {"host": eq(host), "port": lambda x: str(x) == str(port or qd.get("port") or 9083) or (port is None and str(x) == "9083")}
    elif drv == "csr":
        base = comps if method == "ls" else comps[:-1]
        def url_ok(x):
            p = U.parts(x or "")
            return (p["scheme"] == scheme.split("+")[0] and p["hostport"] == host + (f":{port}" if port else "")
                    and p["path"] == "".join("/" + c for c in base) and not p["query"] and not p["frag"]
                    and p["user"] == (None if user is None else user + (":" + pw if pw is not None else "")))
        e = {"url": url_ok}
    for k, v in query:
        if (k, v) in OPTS[drv]:
            e[k] = eq(v)
    return e


def options(ctx, drv):
    """Every option of the driver, given by the request, by the configured root, or by both (the request wins)."""
    if drv == "mysql":
        from mysql.connector.constants import DEFAULT_CONFIGURATION as known
    sch = {"csr": "http+csr"}.get(drv, drv)
    comps = {"csr": ["t"], "mysql": ["db", "t"]}.get(drv, ["db", "s", "t"])
    path = "".join("/" + c for c in comps)
    for o in DRIVER_OPTS[drv].split():
        if drv == "mysql" and o not in known:
            continue                                    # not an option of the installed version
        for inroot, inreq, other in itertools.product((None, "a b"), (None, "c", "/d/e%&="), (False, True)):
            rq = [x for x in ((o, inroot), OPTS[drv][0] if other and OPTS[drv][0][0] != o else None) if x and x[1]]
            qq = [(o, inreq)] if inreq else []
            root = f"{sch}://root:top@h:1234" + ("?" + "&".join(f"{k}={q(v)}" for k, v in rq) if rq else "")
            url = f"{sch}://h:1234{path}" + ("?" + "&".join(f"{k}={q(v)}" for k, v in qq) if qq else "")
            cmd = F.fresh([root])
            cn = {k: eq(v) for k, v in (dict(rq) | dict(qq)).items()}
            if o not in cn:
                cn[o] = lambda x: x is None
            if drv != "csr":
                cn |= {"user": eq("root"), "password": eq("top"), "port": eq(1234), {"snowflake": "account"}.get(drv, "host"): eq("h")}
            check(cmd, "schema", url, True, ctx, expected_object(drv, "schema", comps), drv, cn)


def sqlite_options(ctx):
    d = D["d"]
    for (k, v, want), where, other in itertools.product(SQLITE_OPTS, ("root", "request"), (False, True)):
        if k == "uri" and want:
            continue                                    # a URI is another way to write the database
        o = f"?{k}={v}" + ("&cached_statements=9" if other and k != "cached_statements" else "")
        root, url = (f"sqlite:///{d}/x.db" + (o if where == "root" else ""), f"sqlite:///{d}/x.db/t" + (o if where == "request" else ""))
        cmd = F.fresh([root])
        cn = {k: lambda x, want=want: x == want, "database": lambda x: x == f"{d}/x.db"}
        check(cmd, "schema", url, True, ctx, ("schema", ["x_db_t", "b"]), "sqlite", cn)
        check(cmd, "ls", f"sqlite:///{d}/x.db" + (o if where == "request" else ""), True, ctx, ("ls", ["t", "t2"]), "sqlite", cn)


def run_case(case, ctx):
    if "scheme" in case:
        sch = case["scheme"]
        drv = SCHEMES[sch]
        conf = CONFS[case["conf"]]
        for auth in AUTH:
            (ru, rp, h, po) = auth
            if drv == "hive" and ru:
                continue
            for comps in PATHS[drv]:
                if conf is not None:
                    if ru is not None and conf[2] != "other":
                        continue                    # credentials come from the configuration
                    cu, cp, depth = conf
                    if drv == "hive":
                        cu = cp = None
                    hostpart = f"{h}:{po}" if po else h
                    ci = (f"{cu}:{cp}@" if cu else "")
                    if depth == "other":
                        curl = f"{sch}://{ci}otherhost/"
                    else:
                        # the deepest part of the path that is still part of the connection
                        keep = {"mysql": 1, "postgresql": 1, "snowflake": 1, "csr": len(comps) - 1, "hive": 0}[drv]
                        pre = comps[:max(0, min(depth, keep))]
                        curl = f"{sch}://{ci}{hostpart}" + "".join("/" + c for c in pre)
                        if OPTS[drv]:
                            curl += "?" + "&".join(f"{k}={q(v)}" for k, v in OPTS[drv])
                    cmd = F.fresh([curl])
                else:
                    cmd = F.fresh([])
                for query in queries(drv, case["pairs"] and comps == PATHS[drv][-1]):
                    if drv == "hive" and po is None and any(k == "port" for k, _ in query):
                        continue                    # the URL leaves the port open: either answer is acceptable
                    ui = userinfo(ru, rp)
                    base = f"{sch}://{ui + '@' if ui else ''}{h}{':%d' % po if po else ''}" + "".join("/" + c for c in comps)
                    for tail in ("", "/"):
                        if tail and (query or not comps):
                            continue
                        url = base + tail + ("?" + "&".join(f"{k}={q(v)}" for k, v in query) if query else "")
                        for method in ("ls", "schema"):
                            obj = expected_object(drv, method, comps)
                            for strict in (False, True):
                                if conf is None or conf[2] == "other":
                                    user, pw, qq = ru, rp, query
                                    ob = None if strict else obj
                                else:
                                    user, pw = unquote(conf[0]), unquote(conf[1])
                                    qq = list((dict(OPTS[drv]) | dict(query)).items())
                                    ob = obj
                                cn = connection(drv, sch, user, pw, h, po, comps, qq, method) if obj and obj != "any" else {}
                                check(cmd, method, url, strict, ctx, ob, drv, cn)
        return
    if "options" in case:
        return options(ctx, case["options"])
    if "sqlite_options" in case:
        return sqlite_options(ctx)
    if "bigquery" in case:
        for conf, comps, method, strict, host, rq in itertools.product(
                (None, "bigquery://", "bigquery:///"), PATHS["bigquery"], ("ls", "schema"), (True, False), ("", "any"),
                [None] + REDIR):
            cmd = F.fresh([conf] if conf else []) if not rq else cmd
            url = "bigquery://" + host + "".join("/" + c for c in comps) + (f"?{rq[0]}={rq[1]}" if rq else "")
            obj = expected_object("bigquery", method, comps)
            if strict and conf is None:
                obj = None
            check(cmd, method, url, strict, ctx, obj, "bigquery", {})
        return
    d = D["d"]
    if "sqlite" in case:
        opts = ["", "?timeout=7", "?timeout=7&cached_statements=10", "?database=evil.db", "?url=evil", "?paths=evil", "#frag"]
        for f, abs_ in itertools.product(("x.db", "sub/x.db"), (False, True)):
            path = (d + "/" + f) if abs_ else f
            for conf in (None, "sqlite:///" + path, "sqlite:///" + (d if abs_ else "sub" if "sub" in f else "x.db"), "sqlite:////elsewhere/x.db"):
                cmd = F.fresh([conf] if conf else [])
                covered = conf is not None and "elsewhere" not in conf
                for o, strict in itertools.product(opts, (True, False)):
                    cn = {"database": lambda x, p=path: os.path.abspath(os.path.join(d, str(x))) == os.path.abspath(os.path.join(d, p)),
                          "timeout": lambda x, o=o: ("timeout" not in o and x is None) or ("timeout" in o and x == 7.0)}
                    check(cmd, "ls", f"sqlite:///{path}{o}", strict, ctx, ("ls", ["t", "t2"]) if covered or not strict else None, "sqlite", cn)
                    for t in ("t", "t2"):
                        ob = ("schema", [f"{f.replace('/', '_').replace('.', '_')}_{t}", "b"])
                        check(cmd, "schema", f"sqlite:///{path}/{t}{o}", strict, ctx, ob if covered or not strict else None, "sqlite", cn)
                    check(cmd, "schema", f"sqlite:///{path}/nope{o}", strict, ctx, None, "sqlite", {})
        stray = sorted(set(os.listdir(d)) - D["files"])
        if stray:
            ctx.fail("stray", f"connecting created files {stray}")
        # shared in-memory database given as URI
        u = "sqlite:///file:c13mem?mode=memory&cache=shared&uri=true"
        keep = F.real_sqlite_connect("file:c13mem?mode=memory&cache=shared", uri=True)
        keep.execute("CREATE TABLE IF NOT EXISTS m (mm INTEGER)")
        keep.commit()
        for conf, strict in ((None, False), (u, True)):
            cmd = F.fresh([conf] if conf else [])
            check(cmd, "ls", u, strict, ctx, ("ls", ["m"]), "sqlite", {})
            check(cmd, "schema", "sqlite:///file:c13mem/m?mode=memory&cache=shared&uri=true", strict, ctx, ("schema", ["mm"]), "sqlite", {})
        return
    if "file" in case:
        ls_root = sorted(os.listdir(d))
        sp = "s p\u00fc+"
        for conf, strict in itertools.product((None, f"file://{d}/{sp}", f"file://{d}/{sp}/", f"file://{d}/s%20p%C3%BC+", f"file://{d}/sub", f"file://{d}"), (True, False)):
            cmd = F.fresh([conf] if conf else [])
            # a configured directory gives no access in strict mode so far; it must never give more than what is below it
            ok = not strict
            some = strict and conf is not None and not conf.endswith("sub")
            for form in (f"file://{d}/{sp}", f"{d}/{sp}", sp, f"file://{d}/sub/../{sp}"):
                check(cmd, "ls", form, strict, ctx, ("ls", ["{q}.avsc"]) if ok else "any" if some else None, "file", None)
                check(cmd, "schema", form + "/{q}.avsc", strict, ctx, ("schema", ["f_q", "b"]) if ok else "any" if some else None, "file", None)
            for u in (f"file://{d}/u.avsc", f"file://{d}/{sp}/../u.avsc"):
                check(cmd, "schema", u, strict, ctx, ("schema", ["f_u", "b"]) if ok else "any" if conf == f"file://{d}" else None, "file", None)
        for conf in (None, "file:///", "file://"):
            cmd = F.fresh([conf] if conf else [])
            for strict in (True, False):
                ok = bool(conf) or not strict
                for form in (f"file://{d}", d, "."):
                    for tail in ("", "/"):
                        check(cmd, "ls", form + tail, strict, ctx, ("ls", ls_root) if ok else None, "file", None)
                for name, fields in (("u.avsc", ["f_u", "b"]), (sp + "/{q}.avsc", ["f_q", "b"]), ("sub/v.avsc", ["f_v", "b"]), ("w.json", ["f_w"]), ("p.proto", ["f_p"])):
                    for form in (f"file://{d}/{name}", f"{d}/{name}", name, "./" + name):
                        for o in ("", "?path=evil", "?scheme=mysql", "?url=evil") if ":" in form else ("",):
                            check(cmd, "schema", form + o, strict, ctx, ("schema", fields) if ok else None, "file", None)
                for form in (f"file://{d}/x.db", f"{d}/sub/x.db", f"file://{d}/nope.avsc", f"{d}/nope.proto", f"file://{d}", f"{d}/sub", f"file://{d}/README", f"{d}/y.txt", f"file://{d}/a.avsc.bak", f"{d}/.avsc",
                             f"file://{d}/bad.avsc", f"{d}/bad.json", f"{d}/bad.proto"):
                    check(cmd, "schema", form, strict, ctx, None, "file", None)
        return
    for b, path, method, strict in itertools.product(BADSCHEMES, ("h", "h/db", "h/db/s/t", "/x"), ("ls", "schema"), (True, False)):
        for conf in (None, "mysql://u:p@h/"):
            cmd = F.fresh([conf] if conf else [])
            check(cmd, method, f"{b}://{path}", strict, ctx, None, "none", {})
            if F.CALLS:
                ctx.fail("connected", f"{b}://{path} connected: {F.CALLS}")
