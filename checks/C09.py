"""HTTP registry: all request sequences on the real ASGI app against a dict model."""
import itertools, json, os
from pathlib import Path
from urllib.parse import quote
from mc import terms as M
from mc.jail import SCRATCH

import recap.types as rt
from mc.asgi import request
from recap.storage.registry import RegistryStorage

app = None


def start_worker(ctx):
    """Each worker has a storage directory and an application of its own."""
    global app
    global DIR
    DIR = os.path.join(SCRATCH, "c09 \u00fc-" + str(os.getpid()))
    os.environ["RECAP_REGISTRY_STORAGE_URL"] = "file://" + DIR if os.getpid() % 2 else Path(DIR).as_uri()
    from recap.server.app import app as a
    app = a

PID = "C09"
RULE = ("every sequence of HTTP requests (2 names, explicit and assigned versions, 2 types, invalid bodies, wrong content "
        "type) up to the depth against the real application over a local directory; after the last request everything is read "
        "back and compared with a dict model, every response is compared on the way.  Second family: every body of a "
        "catalogue of valid / invalid descriptions x content types x delivery in chunks, as POST and as PUT, on an empty and "
        "on a populated name.  Third family: runs of many "
        "versions from seven starting points, after which every existing version is offered again")
ASSUMPTIONS = ["one server process; requests one after another (C10 covers concurrency)",
               "each sequence uses names of its own, so no state is reset between sequences"]
RECAP = "application/x-recap+json"

INT = {"k": "struct", "f": [{"k": "int", "bits": 24, "x": {"name": "a"}}]}
STR = {"k": "union", "t": [{"k": "null"}, {"k": "string", "bytes": 5}], "doc": "é", "x": {"default": None}}
BODY = {"i": json.dumps({"type": "struct", "fields": [{"type": "int", "bits": 24, "name": "a"}]}).encode(),
        "s": json.dumps({"type": "union", "types": ["null", {"type": "string", "bytes": 5}], "doc": "é",
                         "default": None}).encode()}
TERM = {"i": INT, "s": STR}
# (method, name index, version, body key, content type)
OPS = [("POST", 0, None, "i", RECAP), ("POST", 0, None, "s", None), ("PUT", 0, 1, "i", RECAP), ("PUT", 0, 1, "s", RECAP),
       ("PUT", 0, 2, "s", RECAP), ("PUT", 0, 10, "i", None), ("POST", 1, None, "s", RECAP), ("PUT", 1, 2, "i", RECAP),
       ("POST", 0, None, "bad", RECAP), ("PUT", 0, 2, "i", "application/json"), ("PUT", 0, 1, "bad", RECAP),
       ("PUT", 0, 0, "s", RECAP)]
BAD = b'{"type": "int"}'
LONG = [[], [0], [9], [98], [7, 3], [10, 9, 100], [2 ** 31 - 1]]
RED = [0, 3, 4, 6, 8]
PROBE = [0, 1, 2, 3, 10, 11]


def BOUNDS(tier):
    return {"operations": len(OPS), "depth": 3 if tier == "quick" else 4, "reduced_operations": len(RED), "reduced_depth": 4 if tier == "quick" else 6,
            "posts_in_one_history": 13 if tier == "quick" else 29, "valid_bodies": len(valid_bodies()), "invalid_bodies": len(INVALID), "content_types": len(CTYPES)}


def valid_bodies():
    out = []
    for b in M.BUILTINS:
        out.append((b.encode(), {"k": "proxy", "alias": b}))                       # bare name, not JSON
        out.append((json.dumps(b).encode(), {"k": "proxy", "alias": b}))
    for t in M.shapes(2, [{"k": "null"}, {"k": "bool"}, {"k": "int", "bits": 1}, {"k": "enum", "symbols": ["a", ""]}]):
        out.append((json.dumps(M.long_dict(t)).encode(), t))
    deco = [{"doc": ""}, {"doc": "dé\u2028\"\\"}, {"logical": "build.recap.X"}, {"alias": "a.b"},
            {"x": {"name": "n", "default": 0}}, {"x": {"default": None}}, {"x": {"deep": {"a": [1, {"b": None}], "c": 1.5}}},
            {"x": {"default": 2 ** 70}}, {"x": {"default": -0.5}}]
    for d in deco:
        for base in ({"k": "int", "bits": 64}, {"k": "list", "v": {"k": "bool"}},
                     {"k": "struct", "f": [{"k": "string", "bytes": 3}]}):
            t = dict(base, **d)
            out.append((json.dumps(M.long_dict(t)).encode(), t))
    for s in ("  ", "\n"):
        out.append(((s + '{"type": "bool"}' + s).encode(), {"k": "bool"}))
    out.append((json.dumps({"type": "bool", "doc": "é\U0001F600"}, ensure_ascii=False).encode(), {"k": "bool", "doc": "é\U0001F600"}))
    return out


INVALID = [b"", b" ", b"{}", b"null", b"3", b"true", b"{", b'{"type": "bool"', b'{"type": "bool"}}', b"\xff", b'"\xe9"',
           b'{"type": "int"}', b'{"type": "int", "bits": 0}', b'{"type": "int", "bits": NaN}', b"not a type", b"a.b", b'"nope"',
           b'{"type": "bool", "default": NaN}', b'{"type": "float", "bits": 64, "default": Infinity}',
           b'{"type": "struct", "fields": [{"type": "int"}]}', b'{"type": ["null", {"type": "float"}]}',
           b'{"type": "list", "values": {"type": "string", "bytes": -1}}', b'{"type": "list"}', b'{"type": "map", "keys": "string"}',
           b'{"type": "bool", "doc": "\\ud800"}', b'{"type": 5}', b'[5]', b'{"type": "bool", "alias": "noqualifier"}',
           b'{"type": "struct", "fields": [{"type": "bool", "alias": "a.b"}, {"type": "bool", "alias": "a.b"}]}',
           b"[int32]", b"{int32}", b"int32]", b'"int32', b"int32,", b"int32 int64", b"'int32'", b"INT32", b'["int32"', b'{"type": "int32",}',
           b'{"type": ["int32", null]}',
           b'{"type": "enum"}', b'{"type": "union"}', b'{"type": "bytes", "variable": false}']
CTYPES = [("application/x-recap+json", True), (None, True), ("application/json", False), ("text/plain", False),
          ("application/x-recap", False), ("application/x-recap+jsonx", False), ("application/avro+json", False),
          ("*/*", False), ("application/x-protobuf", False)]


def cases(tier):
    depth, rdepth = (3, 4) if tier == "quick" else (4, 6)
    yield {"pre": [], "depth": 0}
    for a in range(len(OPS)):
        yield {"pre": [a], "depth": 0}
        for b in range(len(OPS)):
            yield {"pre": [a, b], "depth": depth - 2}
    for a in RED:
        for b in RED:
            yield {"pre": [a, b], "red": rdepth - 2}
    for i in range(len(valid_bodies())):
        yield {"valid": i}
    for i in range(len(INVALID)):
        yield {"invalid": i}
    for i in range(len(CTYPES)):
        yield {"ct": i}
    for lead in LONG:
        for k in range(14 if tier == "quick" else 30):
            yield {"long": lead, "posts": k}


N = [0]


class Model:
    def __init__(self, ctx):
        N[0] += 1
        u = f"{os.getpid()}.{N[0]}"
        self.names = [u + ".a", u + ".a b+%é/"[:-1]]
        self.st = [{}, {}]
        self.ctx = ctx
        self.trace = []

    def bad(self, what, r, exp):
        self.ctx.fail("http", f"{what}: expected {exp}, got {r.brief()}; requests so far {self.trace}")

    def write(self, method, ni, ver, body, ctype, term, valid, chunks=None):
        """Perform a write on both sides; term None means body is invalid."""
        path = "/registry/" + quote(self.names[ni], safe="") + (f"/versions/{ver}" if method == "PUT" else "")
        r = request(app, method, path, body=body, ctype=ctype, chunks=chunks)
        self.trace.append((method, ni, ver, body[:80], ctype))
        self.ctx.count(transitions=1)
        st = self.st[ni]
        # The reference: wrong type / invalid body / conflict are refused without effect.  Where several reasons to
        # refuse apply, any of their codes is right.
        refuse = set()
        if not valid:
            refuse.add(415)
        if term is None:
            refuse |= {400, 422}
        if method == "PUT" and ver in st:
            refuse.add(409)
        if refuse:
            if r.status not in refuse:
                self.bad("refusal", r, sorted(refuse))
            self.ctx.outcome("refused-%s" % r.status)
            return
        v = ver if method == "PUT" else (max(st) + 1 if st else 1)
        if r.status not in (200, 201) or r.body.strip() != str(v).encode():
            self.bad("write", r, v)
        st[v] = term
        self.ctx.outcome("accepted")

    def observe(self):
        r = request(app, "GET", "/registry/")
        self.ctx.count(states=1, traces=1, transitions=1)
        if r.status != 200:
            return self.bad("list", r, 200)
        mine = sorted(n for n in r.json() if n.startswith(self.names[0][:-1]))
        exp = sorted(n for n, s in zip(self.names, self.st) if s)
        if mine != exp:
            self.bad("list", r, exp)
        for ni, n in enumerate(self.names):
            st = self.st[ni]
            # what is stored is where the settings say
            stored = RegistryStorage(DIR).versions(n) or []
            if stored != sorted(st):
                self.ctx.fail("place", f"{DIR} has versions {stored} of {n}, expected {sorted(st)}; requests so far {self.trace}")
            q = "/registry/" + quote(n, safe="")
            self.read(q, st, max(st) if st else None)
            for v in sorted({*PROBE, *st}):
                self.read(f"{q}/versions/{v}", st, v)
            r = request(app, "GET", q + "/versions")
            self.ctx.count(transitions=1)
            if st and (r.status != 200 or r.json() != sorted(st)):
                self.bad("versions", r, sorted(st))
            if not st and r.status != 404:
                self.bad("versions", r, 404)

    def read(self, path, st, v):
        r = request(app, "GET", path)
        self.ctx.count(transitions=1)
        if v is None or v not in st:
            if r.status != 404:
                self.bad("read " + path, r, 404)
            return
        if r.status != 200:
            return self.bad("read " + path, r, 200)
        try:
            d, gotv = r.json()
            got = M.snap(rt.from_dict(d))
        except Exception as e:
            return self.bad(f"read {path}: unreadable answer {e!r}", r, v)
        if gotv != v or got != M.term_snap(st[v]):
            self.bad("read " + path, r, (v, st[v]))


def seq(ops, ctx):
    m = Model(ctx)
    for (method, ni, ver, b, ct) in ops:
        if b == "bad":
            m.write(method, ni, ver, BAD, ct, None, True)
        else:
            m.write(method, ni, ver, BODY[b], ct, TERM[b], ct in (None, RECAP))
    m.observe()


def run_case(case, ctx):
    if "pre" in case:
        pre = [OPS[i] for i in case["pre"]]
        if "red" in case:
            for tail in itertools.product([OPS[i] for i in RED], repeat=case["red"]):
                seq(pre + list(tail), ctx)
            return
        for d in range(case["depth"] + 1):
            for tail in itertools.product(OPS, repeat=d):
                seq(pre + list(tail), ctx)
        return
    if "long" in case:
        # many versions; then every version that exists (and a few that don't) is offered again
        m = Model(ctx)
        for v in case["long"]:
            m.write("PUT", 0, v, BODY["i"], RECAP, INT, True)
        for i in range(case["posts"]):
            m.write("POST", 0, None, BODY["is"[i % 2]], RECAP, TERM["is"[i % 2]], True)
        for v in [*sorted(m.st[0]), *sorted(m.st[0], reverse=True)]:
            m.write("PUT", 0, v, BODY["s"], RECAP, STR, True)
        m.observe()
        for v in (100, 3, 101):
            m.write("PUT", 0, v, BODY["s"], RECAP, STR, True)
            m.write("POST", 0, None, BODY["i"], RECAP, INT, True)
        m.observe()
        return
    if "valid" in case:
        body, term = valid_bodies()[case["valid"]]
        cuts = [None, [b"", body], [body, b""], [body[:1], body[1:]], [body[:len(body) // 2], body[len(body) // 2:], b""]]
        for ch in cuts:
            m = Model(ctx)
            m.write("POST", 0, None, body, RECAP, term, True, ch)
            m.write("PUT", 0, 3, body, None, term, True, ch)
            m.write("PUT", 0, 3, BODY["i"], None, INT, True)
            m.write("PUT", 0, 1, body, None, term, True, ch)
            m.observe()
            if ch is None:
                m.observe()                 # reading is repeatable
        return
    if "invalid" in case:
        body = INVALID[case["invalid"]]
        for ct, okct in CTYPES:
            for pre in ([], [("POST", 0, None, "i", RECAP)]):
                m = Model(ctx)
                for (a, b, c, d, e) in pre:
                    m.write(a, b, c, BODY[d], e, TERM[d], True)
                m.write("POST", 0, None, body, ct, None, okct)
                m.write("PUT", 0, 1, body, ct, None, okct)
                m.write("PUT", 0, 2, body, ct, None, okct)
                m.observe()
                m.write("POST", 0, None, BODY["s"], RECAP, STR, True)     # still usable afterwards
                m.observe()
        return
    ct, ok = CTYPES[case["ct"]]
    for body, term in valid_bodies()[:60]:
        m = Model(ctx)
        m.write("PUT", 0, 1, body, ct, term, ok)
        m.write("POST", 0, None, body, ct, term, ok)
        m.observe()
