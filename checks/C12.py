"""Credentials are attached only to URLs under the same configured root."""
import itertools, json, os
from mc import urls as U
from recap.settings import RecapSettings

PID = "C12"
RULE = ("full product (settings list of 0..2 configured URLs) x (request URL) x strict; the merged URL is compared part by "
        "part with a component-wise reference matcher, refusals and unchanged pass-through included")
ASSUMPTIONS = ["the first configured URL that covers a request applies", "paths are compared after resolving '.', '..' and "
               "repeated slashes; a leading '//' (absolute sqlite path) differs from '/'"]

CPATHS = ["", "/", "/db", "/db/", "/db/s", "/d.b", "/DB", "/d b", "/d\u00fc/s"]
RPATHS = ["", "/", "/db", "/db2", "/db/s", "/db/s2", "/d", "/db/", "/db/../x", "/db/s/../../x/y", "/x/../db", "//db", "/db//s", "/./db/t",
          "/db.s", "/d.b/x", "/dxb", "/DB", "/db%2Fs", "/db%2e%2e", "/../db/t", "/d b", "/d b/t", "/d b2", "/d%20b/t", "/d+b", "/d\u00fc/s", "/d\u00fc/s/../s/x", "/d%C3%BC/s", "/d\u00fc", "/du/s", "/d b%2Ft", "/d b/%2e%2e/x"]
CUSERS = [None, "Usr7:S3cr"]
RUSERS = [None, "me:mine"]
HP = [("h", None), ("h", 1), ("h2", None), ("hh", None), ("[::1]", 1)]
SCH = ["mysql", "mysql2", "http+csr", "http"]
CQ = [None, [("a", "1"), ("b", "2")]]
RQ = [None, [("b", "3"), ("c", "4")], [("a", "9"), ("a", "8")]]
CF, RF = [None, "cf"], [None, "rf"]


def confs(full):
    """Configured roots; `full` varies query and fragment too."""
    for sch, (h, po), pa, u in itertools.product(["mysql", "http+csr"], [("h", None), ("h", 1), ("[::1]", 1)], CPATHS, CUSERS):
        for q in (CQ if full else [CQ[1] if u else None]):
            for f in (CF if full else [None]):
                yield dict(scheme=sch, user=u, host=h, port=po, path=pa, query=q, frag=f)
    for sch, pa in [("sqlite", "/data"), ("sqlite", "//data"), ("sqlite", "/"), ("file", "/data"), ("file", "/da ta{}"), ("file", "/"), ("bigquery", "")]:
        yield dict(scheme=sch, user=None, host="", port=None, path=pa, query=[("k", "v")], frag=None)


def reqs(full):
    for sch, (h, po), pa, u in itertools.product(SCH, HP, RPATHS, RUSERS):
        if u and (pa not in ("", "/db", "/db2")):
            continue
        for q in (RQ if full else RQ[:2]):
            for f in (RF if full else [None]):
                yield dict(scheme=sch, user=u, host=h, port=po, path=pa, query=q, frag=f)
    for sch, pa in itertools.product(["sqlite", "file", "bigquery"], ["", "/", "/data", "//data", "/data/x", "/data2", "/da ta{}/x", "/da ta{}/../x", "/da%20ta%7B%7D/x", "/data/../etc", "//data/x", "/x"]):
        yield dict(scheme=sch, user=None, host="", port=None, path=pa, query=None, frag=None)
    yield dict(scheme="mysql", user=None, host="H", port=None, path="/db", query=None, frag=None)


def BOUNDS(tier):
    return {"configured": len(list(confs(True))), "requests": len(list(reqs(True))),
            "pair_lists": "all ordered pairs of the reduced configured set", "strict": [True, False]}


def cases(tier):
    n = len(list(confs(True)))
    for i in range(n):
        yield {"one": i, "full": tier != "quick"}
    m = len(list(confs(False)))
    for i in range(m):
        yield {"two": i, "full": tier != "quick"}
    yield {"none": 1}


def match(cs, r):
    for c in cs:
        if (c["scheme"] == r["scheme"] and c["host"].lower() == r["host"].lower() and c["port"] == r["port"]
                and U.under(r["path"], c["path"])):
            return c
    return None


def canon_path(path):
    lead, c = U.comps(path)
    return ("//" if lead and c else "/") + "/".join(c) if c else ""


def check(cs, rs, ctx):
    s = RecapSettings(urls=[U.compose(c) for c in cs])
    for r in rs:
        url = U.compose(r)
        c = match(cs, r)
        for strict in (True, False):
            ctx.count(states=1, transitions=1, traces=1)
            try:
                got = s.unsafe_url(url, strict)
            except ValueError as e:
                got = None
            where = f"configured {[U.compose(x) for x in cs]}, request {url}, strict={strict}: "
            if c is None:
                ctx.outcome("not-configured")
                if strict and got is not None:
                    ctx.fail("accepted", where + f"accepted as {got} but it is not under a configured URL")
                if not strict and got != url:
                    ctx.fail("changed", where + f"returned {got!r}, must be unchanged")
                continue
            ctx.outcome("merged")
            if got is None:
                ctx.fail("refused", where + "refused although it is under a configured URL")
                continue
            q = dict()
            for k, v in c["query"] or []:
                q.setdefault(k, []).append(v)
            rq = {}
            for k, v in r["query"] or []:
                rq.setdefault(k, []).append(v)
            q |= rq
            want = U.expect(r, user=c["user"], query=[(k, v) for k in q for v in q[k]], frag=r["frag"] or c["frag"] or "",
                            path=canon_path(r["path"]))
            p = U.parts(got)
            p["path"] = canon_path(p["path"])
            if p != want:
                ctx.fail("merge", where + f"gives {got}: {p} instead of {want}")


def run_case(case, ctx):
    if "none" in case:
        check([], list(reqs(True)), ctx)
    elif "one" in case:
        check([list(confs(True))[case["one"]]], list(reqs(True)), ctx)
    else:
        cf = list(confs(False))
        a = cf[case["two"]]
        rs = [r for r in reqs(False) if r["scheme"] == a["scheme"] and r["host"] in (a["host"], "hh") and r["user"] is None]
        if not case["full"]:
            rs = [r for r in rs if not r["query"] or r["path"] in ("/db", "/db/s")]
        for b in cf:
            if b["scheme"] == a["scheme"]:
                check([a, dict(b)], rs, ctx)
