"""JSON Schema -> Recap, against an independent reading of the schema."""
import itertools, json, re
from mc import jsonmodel as J
from mc.engine import observe

PID = "C23"
RULE = ("all JSON Schemas of the grammar within the bounds: every leaf type and format in every chain of array / object contexts, required or not, in every "
        "spelling, with every combination of description and default; all subsets of required over all orders of properties; every reference graph over "
        "3 schemas (each with 2 properties that refer, directly or in an array, required or not, to any of them) for every way of providing them (retrieved over "
        "HTTP, by a custom retriever, preloaded); embedded $ids before and after references to them; $id spellings; unsupported schemas")
ASSUMPTIONS = ["references are absolute URLs of schemas with an $id (local $defs and $anchors are not supported by Recap)", "the doc and default of a referenced "
               "schema may or may not be inherited by the reference", "schemas with an $id are not unions", "format next to a list of types is not judged"]
ALIAS = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*(\.[a-zA-Z_][a-zA-Z0-9_]*)+")

LEAVES = [{"type": t} for t in ("string", "number", "integer", "boolean", "null")]
LEAVES += [{"type": "string", "format": f} for f in ("bytes", "date", "date-time", "time", "email")]
LEAVES += [{"type": "integer", "format": "date"}, {"type": ["string", "null"]}, {"type": ["null", "integer"]}, {"type": ["number", "string", "boolean"]}, {"type": ["boolean"]},
           {"type": ["null", "string", "integer", "boolean", "number"]}, {"type": []}]
LEAVES += [{"type": "object", "properties": {}}, {"type": "object", "properties": {"q": {"type": "string"}}, "required": ["q"]}]
BAD = [{"type": "object"}, {"type": "array"}, {"type": "any"}, {}, {"type": "String"}, {"enum": ["a"]}, {"type": ["string", "any"]}, {"type": ["object"]}, True, {"oneOf": [{"type": "string"}]}]
SHORT = ["string", "integer", "null"]
VALUES = [None, "x", 0, False, 1.5, [], {}, ""]
CTX = ["arr", "req", "opt"]
CASE_TIMEOUT = 300


def wrap(c, t, k):
    if c == "arr":
        return {"type": "array", "items": t}
    o = {"type": "object", "properties": {f"w{k}": t, "v": {"type": "boolean"}}}
    if c == "req":
        o["required"] = [f"w{k}"]
    return o


def with_x(t, *, desc=None, **x):
    t = dict(t)
    if desc is not None:
        t["description"] = desc
    return t | x


def top(props, required=None, **x):
    s = {"type": "object", "properties": props}
    if required is not None:
        s["required"] = required
    return s | x


def BOUNDS(tier):
    return {"leaves": len(LEAVES), "context depth": 3 if tier == "quick" else 4, "properties": 4, "referenced schemas": 2, "reference depth compared": 4}


def cases(tier):
    n = 3 if tier == "quick" else 4
    for i in range(len(LEAVES) + len(BAD) + len(SHORT)):
        yield {"leaf": i, "depth": n}
    yield {"order": 1}
    for how in ("http", "custom", "preloaded"):
        for rid in (True, False):
            for slot in range(len(SLOTS)):
                yield {"graph": slot, "how": how, "id": rid, "third": tier == "thorough"}
    yield {"sites": 1}
    yield {"embedded": 1}
    yield {"ids": 1}
    yield {"top": 1}


URL = ["http://example.com/schemas/root.json", "http://example.com/schemas/b.json", "https://sub.other.org/c"]


def slots():
    out = [{"type": "string"}]
    for i in range(3):
        out += [{"$ref": URL[i]}, {"type": "array", "items": {"$ref": URL[i]}}]
    return out


SLOTS = slots()


def converter(docs, how, patched=[]):
    import httpx
    from referencing import Registry, Resource, jsonschema
    from recap.converters import json_schema as js
    def fetch(uri, *a, **k):
        return httpx.Response(200, text=json.dumps(docs[uri]))
    # never the network
    httpx.get = fetch
    js.httpx.get = fetch
    res = {u: Resource.from_contents(d, jsonschema.DRAFT202012) for u, d in docs.items()}
    if how == "http":
        fn = js.JSONSchemaConverter.httpx_retrieve
        clear = getattr(fn, "cache_clear", None)
        if clear:
            clear()
        else:
            for c in getattr(fn, "__closure__", None) or ():
                if hasattr(c.cell_contents, "cache_clear"):
                    c.cell_contents.cache_clear()
        return js.JSONSchemaConverter()
    if how == "custom":
        return js.JSONSchemaConverter(Registry(retrieve=lambda u: res[u]))
    return js.JSONSchemaConverter(Registry().with_resources(list(res.items())))


def alias_of(sid):
    """Documented: reversed domain, then the path with dots, in lowercase."""
    m = re.fullmatch(r"https?://([a-z.]+)/([a-zA-Z./]*)", sid)
    return ".".join(m.group(1).split(".")[::-1]) + "." + m.group(2).replace("/", ".").lower()


def judge(ctx, s, docs={}, how="custom", key="", depth=4, conv=None):
    ctx.count(states=1, traces=1, transitions=1)
    conv = conv or converter(docs, how)
    got = observe(conv.to_recap, json.dumps(s))
    show = f"{json.dumps(s)} with {json.dumps(docs)}" if docs else json.dumps(s)
    try:
        J.check(s, docs)
        if J.norm(s).get("type") != "object":
            raise J.Refuse("top")
    except J.Refuse:
        ctx.outcome("refused")
        if got[0] != "err":
            ctx.fail("accepted:" + key, f"{show}: must be refused; got {got[1]}")
        return None
    if got[0] != "ok":
        ctx.fail("raises:" + key, f"{show}: {got}")
        return None
    ctx.outcome("read")
    try:
        J.match("$", got[1], s, docs, alias_of, depth)
    except J.Differs as e:
        ctx.fail("differs:" + key, f"{show}: {e}")
    except Exception as e:
        ctx.fail("unresolved:" + key, f"{show}: {type(e).__name__} {e}")
    return got[1]


NOVAL = object()


def run_case(case, ctx):
    if "leaf" in case:
        i = case["leaf"]
        leaf = (LEAVES + BAD + SHORT)[i]
        isd = isinstance(leaf, dict)
        conv = converter({}, "custom")
        for d in range(case["depth"] + 1):
            for chain in itertools.product(CTX, repeat=d):
                t = leaf
                for k, c in enumerate(chain):
                    t = wrap(c, t, k)
                key = f"{json.dumps(leaf)}:{'/'.join(chain)}"
                for req in (["a"], [], None):
                    judge(ctx, top({"a": t}, req), key=key, conv=conv)
                    if d <= 1 and (isd or chain):
                        for desc, df in itertools.product((None, "d", ""), [NOVAL] + VALUES):
                            x = {} if df is NOVAL else {"default": df}
                            judge(ctx, top({"a": with_x(t, desc=desc, **x)}, req, description="top"), key=key, conv=conv)
                            if chain and isd:
                                u = wrap(chain[0], with_x(leaf, desc=desc, **x), 0)
                                judge(ctx, top({"a": with_x(u, desc="outer")}, req), key=key, conv=conv)
    elif "order" in case:
        pool = {"a": {"type": "string"}, "b": {"type": "integer", "default": 0}, "c": {"type": ["null", "string"]}, "d": {"type": "array", "items": "boolean"}, "": {"type": "null"}}
        conv = converter({}, "custom")
        for n in range(0, 5):
            for p in itertools.permutations(pool, n):
                for r in range(len(p) + 1):
                    for req in itertools.combinations(p, r):
                        judge(ctx, top({k: pool[k] for k in p}, list(req)), key="order", conv=conv)
                        judge(ctx, top({k: pool[k] for k in p}, list(req)[::-1] + ["zz"], title="T", **{"$schema": "https://json-schema.org/draft/2020-12/schema"}), key="order", conv=conv)
                        if n <= 3:
                            # the same names and requirements at another level must not interfere
                            inner = top({k: pool[k] for k in p[::-1]}, [k for k in p if k not in req])
                            judge(ctx, top({k: pool[k] for k in p} | {"o": inner}, list(req)), key="order-nested", conv=conv)
    elif "graph" in case:
        graph(ctx, case)
    elif "sites" in case:
        sites(ctx)
    elif "embedded" in case:
        embedded(ctx)
    elif "ids" in case:
        ids(ctx)
    else:
        for t in LEAVES + BAD + SHORT + [{"type": "array", "items": {"type": "string"}}, [], 1, None, {"$ref": URL[1]}]:
            if t == {"$ref": URL[1]}:
                continue
            judge(ctx, t, key="top")


def graph(ctx, case):
    """Root and two other schemas with two properties each."""
    a = SLOTS[case["graph"]]
    n = len(SLOTS)
    for b, c, d in itertools.product(range(n), range(n), range(n)):
        for e in (range(n) if case["third"] else (0, (b + c + d) % n)):
            for bits in (0, 0b10101, 0b01010, 0b11111):
                reqs = [[x for x, m in (("p", 1), ("q", 2)) if bits & m], [x for x, m in (("p", 4), ("q", 8)) if bits & m], [x for x, m in (("p", 16),) if bits & m]]
                root = top({"p": a, "q": SLOTS[b]}, reqs[0], **({"$id": URL[0]} if case["id"] else {}))
                docs = {URL[1]: top({"p": SLOTS[c], "q": SLOTS[d]}, reqs[1], **{"$id": URL[1], "description": "B"}), URL[2]: top({"p": SLOTS[e]}, reqs[2], **{"$id": URL[2]})}
                if not case["id"] and URL[0] in json.dumps([root, docs]):
                    continue    # the root cannot be referenced
                docs[URL[0]] = root
                judge(ctx, root, docs, case["how"], key=f"graph:{case['how']}")


def sites(ctx):
    """Descriptions and defaults next to references, for every kind of schema referenced."""
    kinds = [top({"x": {"type": "string"}}, ["x"]), {"type": "array", "items": {"type": "string"}}, {"type": "integer"}, {"type": "string", "format": "date"}, {"type": "boolean", "default": True}]
    opts = [{}, {"description": "one"}, {"default": None}, {"default": 0, "description": "two"}]
    for kd, desc in itertools.product(kinds, (None, "own")):
        docs = {URL[1]: with_x(kd, desc=desc, **{"$id": URL[1]})}
        for x, y, z in itertools.product(opts, repeat=3):
            for bits in range(4):
                r = {"$ref": URL[1]}
                s = top({"a": r | x, "b": {"type": "array", "items": r | y}, "c": r | z, "d": top({"e": r})}, [k for k, m in (("a", 1), ("c", 2)) if bits & m])
                judge(ctx, s, docs, key="sites:" + kd["type"])
    # served under another URL than its $id, and referenced by both
    docs = {URL[1]: with_x(kinds[0], **{"$id": URL[2]}), URL[2]: with_x(kinds[0], **{"$id": URL[2]})}
    for p in itertools.product((URL[1], URL[2], URL[1] + "#"), repeat=3):
        s = top({f"f{i}": {"$ref": u.rstrip("#") if False else u} for i, u in enumerate(p)})
        d2 = docs | {URL[1] + "#": docs[URL[1]]}
        judge(ctx, s, d2, key="other-url")


def embedded(ctx):
    """A schema with an $id inside the document, references to it before and after."""
    d = with_x(top({"x": {"type": "string"}}, ["x"]), **{"$id": URL[1]})
    r = {"$ref": URL[1]}
    places = [lambda t: t, lambda t: {"type": "array", "items": t}, lambda t: top({"n": t}), lambda t: top({"n": t}, ["n"])]
    for pd, p1, p2 in itertools.product(places, repeat=3):
        for order in set(itertools.permutations("d12")):
            for req in ([], ["d", "1", "2"], ["1"]):
                props = {"d": pd(d), "1": p1(r), "2": p2(r)}
                for rid in (True, False):
                    s = top({k: props[k] for k in order}, req, **({"$id": URL[0]} if rid else {}))
                    judge(ctx, s, {URL[1]: d}, key="embedded:" + "".join(order))


IDS = ["http://example.com", "http://example.com/", "http://example.com/a/B.json", "https://a.b.c.d/x", "http://localhost/x", "http://localhost:8080/x", "http://my-site.com/x",
       "http://example.com/2020-12/schema", "http://1.2.3.4/x", "http://example.com/a//b", "http://example.com/a_b", "http://example.com/a%20b", "http://example.com/x?y=1",
       "urn:example:thing", "urn:uuid:6e8bc430-9c3a-11d9-9669-0800200c9a66", "tag:a@b.com,2004:x", "/schemas/address", "address", "address.json", "http://[::1]/x", "http://u:p@h.com/x",
       "HTTP://Example.COM/A", "file:///etc/x.json", "http://ex\u00e4mple.com/\u00fc", "http://example.com/-/x", "http://example.com/1", "a/1", "1", "http://x/y#", "http://example.com/schema.json#"]


def ids(ctx):
    from recap.types import from_dict, to_dict
    for u in IDS:
        for inner in (False, True):
            s = top({"x": {"type": "string"}}, ["x"], **{"$id": u})
            if inner:
                s = top({"n": s})
            ctx.count(states=1, traces=1, transitions=1)
            got = observe(converter({}, "custom").to_recap, json.dumps(s))
            if got[0] != "ok":
                ctx.fail("raises:id", f"$id {u!r}: {got}")
                continue
            ctx.outcome("id")
            o = got[1].fields[0].types[1] if inner else got[1]
            if not isinstance(o.alias, str) or not ALIAS.fullmatch(o.alias):
                ctx.fail("alias:" + u, f"$id {u!r} became the alias {o.alias!r}, which is not valid")
                continue
            back = observe(lambda: to_dict(from_dict(to_dict(got[1]))))
            if back[0] != "ok" or back[1] != to_dict(got[1]):
                ctx.fail("alias:" + u, f"$id {u!r}: {back}")
    # schemas whose $ids differ in the domain, the path or the fragment are told apart
    urls = [f"http://{d}{p}{f}" for d in ("example.com", "www.example.com", "example.org") for p in ("/a", "/b", "/a/b", "/b/a", "/a1") for f in ("", "#/x", "#/y", "#/x/y")]
    for u, v in itertools.combinations(urls, 2):
        s = top({"p": top({"x": {"type": "string"}}, **{"$id": u}), "q": top({"y": {"type": "integer"}}, **{"$id": v})})
        ctx.count(states=1, traces=1, transitions=1)
        got = observe(converter({}, "custom").to_recap, json.dumps(s))
        if got[0] != "ok":
            ctx.fail("raises:ids", f"{u} and {v}: {got}")
            continue
        o = [f.types[1] for f in got[1].fields]
        tail = [w.split("/", 3)[3].replace("#/", "/") for w in (u, v)]
        if (o[0].alias == o[1].alias) and (tail[0] != tail[1] or u.split("/")[2] != v.split("/")[2]):
            ctx.fail("same-alias", f"different schemas {u} and {v} got the same alias {o[0].alias}")
        if [[f.extra_attrs["name"] for f in t.fields] for t in o] != [["x"], ["y"]]:
            ctx.fail("confused", f"{u} and {v}: {got}")
    # documented form of ordinary URLs
    for dom, path in itertools.product(("example.com", "a.b.c", "x.org"), ("a", "a/b", "A/B.json", "a/b/c/d")):
        u = f"http://{dom}/{path}"
        judge(ctx, top({"x": {"type": "string"}}, **{"$id": u}), key="id")
    # a custom strategy is used everywhere
    for root, strat in itertools.product((True, False), (lambda u: "my." + str(abs(hash(u))).translate(str.maketrans("0123456789", "abcdefghij")),)):
        docs = {URL[1]: top({"x": {"$ref": URL[1]}}, **{"$id": URL[1]})}
        s = top({"a": {"$ref": URL[1]}, "b": {"$ref": URL[1]}}, **({"$id": URL[0]} if root else {}))
        ctx.count(states=1, traces=1, transitions=1)
        got = observe(converter(docs, "custom").to_recap, json.dumps(s), strat)
        if got[0] != "ok":
            ctx.fail("raises:strategy", str(got))
            continue
        try:
            J.match("$", got[1], s, docs, strat, 3)
        except Exception as e:
            ctx.fail("differs:strategy", f"{type(e).__name__} {e}")
