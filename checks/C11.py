"""Listed roots: no user information, otherwise the configured URL; each resolves back."""
import itertools, json, os
from mc import urls as U
from recap.settings import RecapSettings

PID = "C11"
RULE = ("full product scheme x userinfo x host x port x path x query x fragment of configured URLs, all ordered pairs (and in "
        "the thorough tier triples) of a sub-product, given to the constructor and through the environment; the listed root is "
        "compared part by part with the composed parts, searched for the secrets, and resolved back")
ASSUMPTIONS = ["credentials means the user-information part of a URL; secrets a user puts into the query string are configuration options"]

NET = ["mysql", "postgresql", "snowflake", "http+csr", "https+csr", "thrift+hms", "https", "s3"]
USERS = [None, "Usr7", "Usr7:S3cr", ":S3cr", "Usr7:", "Usr7:S3cr%40h%3A1%2Fx", "Usr7%40corp:S3cr", "Usr7:S3cr:S3cr", "Usr7%5BS3cr:%5D"]
HOSTS = ["h", "my-host.example.com", "127.0.0.1", "[::1]", "[fe80::a:1]"]
PORTS = [None, 5432, 1]
PATHS = ["", "/", "/db", "/db/sub", "/db/", "/a@b:c", "/Usr"]
QUERIES = [None, [("a", "1")], [("a", "1"), ("b", "x%26y%3Dz")], [("ssl.ca.location", "/p/q.crt"), ("a", "1")], [("e", "me%40x.com")], [("p", "/a/b/")]]
FRAGS = [None, "f", "a@b", "/f/"]
LOCAL = [("sqlite", p) for p in ("/x.db", "//abs/x.db", "/dir/x.db", "/file:mem1", "/", "")] + \
        [("file", p) for p in ("/", "/data", "/data/sub/", "/a@b")] + [("bigquery", ""), ("bigquery", "/")]


def single():
    for sch, u, h, po, pa, q, f in itertools.product(NET, USERS, HOSTS, PORTS, PATHS, QUERIES, FRAGS):
        yield dict(scheme=sch, user=u, host=h, port=po, path=pa, query=q, frag=f)
    for (sch, pa), q, f in itertools.product(LOCAL, QUERIES, FRAGS):
        yield dict(scheme=sch, user=None, host="", port=None, path=pa, query=q, frag=f)


def small():
    for sch, u, h, po, pa in itertools.product(["mysql", "http+csr"], [None, "Usr7:S3cr", ":S3cr"], ["h", "[::1]"], [None, 1], ["", "/db", "/db2"]):
        yield dict(scheme=sch, user=u, host=h, port=po, path=pa, query=[("a", "1")] if u else None, frag=None)
    for sch, pa in LOCAL:
        yield dict(scheme=sch, user=None, host="", port=None, path=pa, query=None, frag=None)


def BOUNDS(tier):
    return {"single": sum(1 for _ in single()), "list_elements": len(list(small())), "list_length": 2 if tier == "quick" else 3}


def cases(tier):
    for sch in NET:
        for u in range(len(USERS)):
            yield {"scheme": sch, "user": u}
    yield {"local": 1}
    n = len(list(small()))
    for i in range(n):
        yield {"list": i, "len": 2 if tier == "quick" else 3}
    yield {"empty": 1}


def check(confs, ctx, via="ctor"):
    urls = [U.compose(c) for c in confs]
    if via == "env":
        os.environ["RECAP_URLS"] = json.dumps(urls)
        try:
            s = RecapSettings()
        finally:
            del os.environ["RECAP_URLS"]
    else:
        s = RecapSettings(urls=urls)
    got = s.safe_urls
    ctx.count(states=1, transitions=1, traces=1)
    if len(got) != len(urls):
        return ctx.fail("count", f"{urls} listed as {got}")
    for c, u, g in zip(confs, urls, got):
        if any(x in g for x in U.SECRETS):
            ctx.fail("leak", f"{u} is listed as {g}")
            continue
        e = U.expect(c)
        p = U.parts(g)
        if p != e:
            ctx.fail("root", f"{u} is listed as {g}: {p} instead of {e}")
        # resolves back, unless an earlier configured URL already covers it
        first = next(d for d in confs if d["scheme"] == c["scheme"] and d["host"].lower() == c["host"].lower()
                     and d["port"] == c["port"] and U.under(c["path"], d["path"]))
        if first is not c:
            ctx.outcome("covered-by-earlier")
            continue
        try:
            back = s.unsafe_url(g)
        except Exception as ex:
            ctx.fail("back", f"listed root {g} of {u} is refused: {ex}")
            continue
        ctx.count(transitions=1)
        want = U.expect(c, user=c["user"])
        b = U.parts(back)
        for x in (want, b):
            if x["user"] is not None:
                x["user"] = x["user"].removesuffix(":")       # 'user:' and 'user' are the same credentials
        if b != want:
            ctx.fail("back", f"listed root {g} of {u} resolves to {back}")
        ctx.outcome("resolved-back")
    if s.safe_urls != got:
        ctx.fail("repeat", f"{urls}: second listing differs")


def run_case(case, ctx):
    if "scheme" in case:
        for c in single():
            if c["scheme"] == case["scheme"] and c["user"] == USERS[case["user"]]:
                check([c], ctx)
    elif "local" in case:
        for c in single():
            if c["host"] == "":
                check([c], ctx)
                check([c], ctx, "env")
    elif "list" in case:
        sm = list(small())
        for rest in itertools.product(sm, repeat=case["len"] - 1):
            check([sm[case["list"]]] + [dict(r) for r in rest], ctx)
        check([sm[case["list"]], dict(sm[0])], ctx, "env")
    else:
        if RecapSettings(urls=[]).safe_urls != []:
            ctx.fail("empty", "no configured URLs must list nothing")
