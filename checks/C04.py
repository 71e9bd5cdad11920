"""Alias registries: all operation sequences against a dict model."""
import copy, itertools, json
from mc import terms as M
from mc.engine import observe
import recap.types as rt

PID = "C04"
RULE = ("every sequence of register / refer / resolve / mutate-result / mutate-original / look-up operations of the given depth "
        "over two registries, three aliases and four types; every step's result compared with a dict model, and after every "
        "sequence every alias of both registries is looked up and resolved again; every reference graph of up to 3 definitions (self, mutual, "
        "forward, dangling, built-in) x definition order x {registered, read}: every reference path of length 4 is followed; attribute "
        "overrides on built-in references in all pairs")
ASSUMPTIONS = ["a reference object may cache its own resolution"]

TYPES = {
    "i": {"k": "int", "bits": 7, "alias": "a.X", "doc": "d", "logical": "l.L", "x": {"default": 3, "name": "n", "foo": [1]}},
    "s": {"k": "struct", "alias": "a.X", "f": [{"k": "proxy", "alias": "b.Y", "x": {"name": "p"}},
                                               {"k": "list", "v": {"k": "string", "bytes": 5}, "doc": "inner",
                                                "x": {"default": [], "name": "q"}}]},
    "y": {"k": "enum", "symbols": ["A", "B"], "alias": "b.Y", "doc": "e"},
    "b": {"k": "int", "bits": 8, "alias": "int32"},
    "u": {"k": "int", "bits": 8, "alias": "nodots"},
    "n": {"k": "int", "bits": 8},
}
OVER = {"-": {}, "name": {"x": {"name": "f", "default": None}}, "bits": {"x": {"bits": 16, "foo": 2}},
        "doc": {"doc": "ref", "logical": "r.L"}}
# reference graphs: struct definitions over these aliases, each referring to up to 2 of them (or to an alias nobody defines)
NODES = ["g.A", "g.B", "h.C"]
TARGETS = NODES + ["g.None", "int8"]
OVERRIDES = [("string32", {"bytes": 5}), ("string32", {"variable": False}), ("bytes64", {"bytes": 9, "variable": False}), ("uuid", {"bytes": 16, "doc": "d"}),
             ("int32", {"bits": 8, "signed": False}), ("float16", {"bits": 80}), ("decimal128", {"precision": 5, "scale": 2}),
             ("decimal128", {"bytes": 3, "foo": {"a": 1}}), ("timestamp64", {"unit": "second", "timezone": None}), ("date32", {"logical": "x.Y", "default": 0}),
             ("int32", {"default": False, "foo": None}), ("string32", {"default": "", "foo": 0}), ("bytes32", {"default": [], "foo": {}}), ("time32", {"unit": ""}), ("timestamp64", {"timezone": 0})]
NEAR = ["A.X", "a.x", "a.X ", " a.X", "a.X\n", "a.XX", "a", "X", "a.", ".X", "a.X.", ".a.X", "b.X", "a.a.X", "B.Y", "b.y", "b", "Y", "INT32", "Int32", "int32 ", "int", "string", "null", "proxy", ""]
OPS = ([["reg", r, t] for r in (0, 1) for t in ("i", "s", "y")] + [["reg", 0, t] for t in ("b", "u", "n")]
       + [["ref", r, a, o] for r, a, o in ((0, "a.X", "-"), (0, "a.X", "bits"), (0, "b.Y", "name"), (1, "a.X", "doc"), (0, "int32", "bits"))]
       + [["res"], ["mutres"], ["mutorig"]])


def BOUNDS(tier):
    return {"operations": len(OPS), "depth": 4 if tier == "quick" else 5, "registries": 2, "graph_nodes": 3, "path": 4}


def cases(tier):
    # each case is a prefix of length 2; the remaining depth is enumerated inside
    for d in range(1, 3):
        for p in itertools.product(range(len(OPS)), repeat=d):
            yield {"prefix": list(p), "rest": 0 if d == 1 else (2 if tier == "quick" else 3)}
    outs = [()] + [(a,) for a in TARGETS] + list(itertools.combinations(TARGETS, 2))
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for g in itertools.product(outs, repeat=n):
            yield {"graph": [list(x) for x in g]}
    if tier == "quick":
        for g in itertools.product([(a,) for a in TARGETS], repeat=3):
            yield {"graph": [list(x) for x in g]}
    yield {"overrides": 1}


def model_resolve(defs, alias, over):
    if alias in M.BUILTINS:
        d = copy.deepcopy(M.BUILTINS[alias])
    elif alias in defs:
        d = copy.deepcopy(defs[alias])
    else:
        return None
    d["alias"] = None
    d["doc"] = over.get("doc")
    d.setdefault("x", {})
    if over.get("logical") is not None:
        d["logical"] = over["logical"]
    for k, v in over.get("x", {}).items():
        if k in M.PARAMS[d["k"]]:
            d[k] = v
        else:
            d["x"][k] = v
    return d


def strip(t):
    t = copy.deepcopy(t)
    t["alias"] = None
    t["doc"] = None
    t.get("x", {}).pop("default", None)
    return t


def run_graph(graph, ctx):
    """Definitions that refer to each other: follow every path of references, as soon as possible and at the end."""
    n = len(graph)
    terms = {NODES[i]: {"k": "struct", "alias": NODES[i], "doc": "d", "x": {"tag": i},
                        "f": [wrap(j, {"k": "proxy", "alias": a, "x": {}}) for j, a in enumerate(g)]} for i, g in enumerate(graph)}
    for order in itertools.permutations(range(n)):
        for how in ("register", "read"):
            reg = rt.RecapTypeRegistry()
            early = {a: rt.ProxyType(a, reg) for a in TARGETS}
            for i in order:
                t = terms[NODES[i]]
                if how == "register":
                    r = observe(reg.register_alias, M.build(t, reg))
                else:
                    r = observe(rt.from_dict, M.long_dict(t), reg)
                if r[0] != "ok":
                    ctx.fail(f"graph-define:{json.dumps(graph)}", f"{r}")
            for a in TARGETS:
                for ref in (early[a], rt.ProxyType(a, reg)):
                    follow(ref, a, terms, 0, (how, order), graph, ctx)
            ctx.count(states=1, traces=1)


def wrap(j, t):
    return t if j == 0 else {"k": "union", "t": [{"k": "null"}, {"k": "list", "v": t}]}


def follow(ref, alias, terms, depth, how, graph, ctx):
    ctx.count(transitions=1)
    g = observe(ref.resolve)
    want = model_resolve({k: strip(v) for k, v in terms.items()}, alias, {})
    if want is None:
        if g[0] != "err":
            ctx.fail("graph-unknown", f"{alias} resolved in {graph} {how}: {g}")
        return
    if g[0] != "ok" or M.snap(g[1]) != M.term_snap(want):
        ctx.fail(f"graph:{json.dumps(graph)}", f"reference to {alias} at distance {depth} ({how}): got {g[1:]}, want {want}")
        return
    ctx.outcome(f"followed-{depth}")
    if depth < 3 and want["k"] == "struct":
        for f, t in zip(g[1].fields, want["f"]):
            f2 = f if t["k"] == "proxy" else f.types[1].values
            follow(f2, f2.alias, terms, depth + 1, how, graph, ctx)


def run_case(case, ctx):
    if "graph" in case:
        return run_graph(case["graph"], ctx)
    if "overrides" in case:
        for a, ov in OVERRIDES:
            # the same overrides on an alias of one's own
            reg = rt.RecapTypeRegistry()
            base = dict(M.BUILTINS[a], alias="my.Own", x=dict(M.BUILTINS[a].get("x", {})))
            reg.register_alias(M.build(base, reg))
            over = {"x": {k: v for k, v in ov.items() if k not in ("doc", "logical")}} | {k: v for k, v in ov.items() if k in ("doc", "logical")}
            for i in range(2):
                ctx.count(states=1, transitions=2)
                p = rt.from_dict({"type": "my.Own", **ov}, reg)
                got, want = observe(lambda: M.snap(p.resolve())), M.term_snap(model_resolve({"my.Own": strip(base)}, "my.Own", over))
                if got != ("ok", want):
                    ctx.fail("override", f"an alias for {a} with {ov}: got {got}, want {want}")
                got, want = observe(lambda: M.snap(rt.ProxyType("my.Own", reg).resolve())), M.term_snap(model_resolve({"my.Own": strip(base)}, "my.Own", {}))
                if got != ("ok", want):
                    ctx.fail("override", f"an alias for {a} after a reference with {ov}: got {got}, want {want}")
        for (a, ov), (b, ov2) in itertools.product(OVERRIDES, repeat=2):
            reg = rt.RecapTypeRegistry()
            t = rt.from_dict({"type": "struct", "fields": [{"type": a, "name": "p", **ov}, {"type": b, "name": "q", **ov2}]}, reg)
            for f, al, o in zip(t.fields, (a, b), (ov, ov2)):
                ctx.count(states=1, transitions=1)
                over = {"x": {k: v for k, v in o.items() if k not in ("doc", "logical")} | {"name": f.extra_attrs.get("name")}} | \
                    {k: v for k, v in o.items() if k in ("doc", "logical")}
                got, want = observe(lambda: M.snap(f.resolve())), M.term_snap(model_resolve({}, al, over))
                if got != ("ok", want):
                    ctx.fail("override", f"{al} with {o}: got {got}, want {want}")
        return
    rest = case["rest"]
    for d in range(0, rest + 1):
        for tail in itertools.product(range(len(OPS)), repeat=d):
            seq = [OPS[i] for i in case["prefix"]] + [OPS[i] for i in tail]
            # useful sequences: something must be registered or referred to before res/mut
            if seq[0][0] in ("res", "mutres", "mutorig") or (seq[-1][0] in ("mutorig",) and len(seq) > 1 and seq[-2][0] == "mutorig"):
                continue
            run_seq(seq, ctx)


def run_seq(seq, ctx):
    regs = [rt.RecapTypeRegistry(), rt.RecapTypeRegistry()]
    defs = [{}, {}]
    origs, refs = [], []
    ctx.count(states=1)
    key = json.dumps(seq)

    def chk(label, got, want):
        ctx.count(transitions=1)
        if got != want:
            ctx.fail(f"{label}:{key}", f"{label} after {seq}\n got {got}\nwant {want}")
            return False
        return True

    def check_ref(p, r, alias, over, label):
        want = model_resolve(defs[r], alias, over)
        g = observe(p.resolve)
        if want is None:
            chk(label + " unknown", g[0], "err")
            ctx.outcome("unknown alias raises")
        else:
            chk(label, M.snap(g[1]) if g[0] == "ok" else g, M.term_snap(want))
            ctx.outcome("resolved")
        return g

    for op in seq:
        if op[0] == "reg":
            r, t = op[1], TYPES[op[2]]
            o = M.build(t, regs[r])
            before = M.snap(o)
            a = t.get("alias")
            ok = a is not None and "." in a and a not in defs[r] and a not in M.BUILTINS
            g = observe(regs[r].register_alias, o)
            if not chk("register", g[0], "ok" if ok else "err"):
                return
            chk("register leaves type alone", M.snap(o), before)
            ctx.outcome("registered" if ok else "refused")
            if ok:
                defs[r][a] = strip(t)
                origs.append(o)
        elif op[0] == "ref":
            _, r, a, ov = op
            over = OVER[ov]
            kw = dict(over.get("x", {}))
            for n in ("doc", "logical"):
                if over.get(n):
                    kw[n] = over[n]
            refs.append([rt.ProxyType(a, regs[r], **kw), r, a, over, None])
        elif op[0] == "res":
            if refs:
                e = refs[-1]
                if e[4] is None:
                    g = check_ref(*e[:4], "resolve")
                    if g[0] == "ok":
                        e[4] = g[1]
        elif op[0] == "mutres":
            for e in refs:
                g = observe(e[0].resolve)
                if g[0] == "ok":
                    e[4] = g[1]
                    mutate(g[1])
        elif op[0] == "mutorig":
            for o in origs:
                mutate(o)
    # full observation: fresh references to every alias of both registries
    for r in (0, 1):
        for a in ("a.X", "b.Y", "int32", "nodots", "uuid"):
            g = observe(regs[r].from_alias, a)
            w = model_resolve(defs[r], a, {})
            if w is None:
                chk(f"lookup {a}", g[0], "err")
            else:
                chk(f"lookup {a}", M.snap(g[1]) if g[0] == "ok" else g, M.term_snap(w))
            for ov in ("-", "bits") if a == "a.X" else ("-",):
                over = OVER[ov]
                p = rt.ProxyType(a, regs[r], **over.get("x", {}))
                check_ref(p, r, a, over, f"final resolve {a}")
    if len(seq) <= 2:
        # names that only look like a known alias are unknown
        for r in (0, 1):
            for a in NEAR:
                chk(f"lookup {a!r}", observe(regs[r].from_alias, a)[0], "err")
                chk(f"follow {a!r}", observe(rt.ProxyType(a, regs[r]).resolve)[0], "err")
                chk(f"follow {a!r} with overrides", observe(rt.ProxyType(a, regs[r], name="n", bits=8).resolve)[0], "err")
    for e in refs:
        if e[4] is None:
            check_ref(*e[:4], "final resolve of reference")
    ctx.count(traces=1)


def mutate(o):
    o.doc = "MUT"
    o.extra_attrs["mut"] = 1
    o.extra_attrs.pop("name", None)
    if hasattr(o, "bits"):
        o.bits = 63
    if hasattr(o, "symbols"):
        o.symbols.append("MUT")
    for f in getattr(o, "fields", []):
        mutate(f)
    if hasattr(o, "fields"):
        o.fields.append(rt.NullType())
    if hasattr(o, "values"):
        mutate(o.values)
