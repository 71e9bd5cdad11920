"""All spellings of a type denote the type the longhand denotes."""
import copy, itertools, json
from mc import terms as M
from mc.engine import observe
import recap.types as rt
from checks.C01 import NULL, INT, STR, PA, PB, ENUM, opt, few, odd_terms

PID = "C02"
RULE = ("every type term in the bound x all spellings in which at most b nodes depart from the minimal one (verbose, minimal, bare name, list union, "
        "list as type, optional marker on nested type or union, built-in alias name) over all its nodes")
ASSUMPTIONS = ["optional:true puts name, doc and default on the union and everything else on the nested type, as "
               "making a type nullable does"]


def BOUNDS(tier):
    return {"spelling_deviations": 2 if tier == "quick" else 3, "max_nodes": 3 if tier == "quick" else 4, "deviations": "2 up to 2 nodes, 1 at 3 nodes" if tier == "quick" else "3 / 2 / 1"}


def minimal(t, kids=None):
    d = {k: v for k, v in M.long_dict(t).items() if k == "type" or k in t.get("x", {}) or
         not (v is None or (k in M.DEFAULTS[t["k"]] and v == M.DEFAULTS[t["k"]][k]))}
    return d


def attach(t, d, kids):
    k = t["k"]
    if k == "list":
        d["values"] = kids[0]
    elif k == "map":
        d["keys"], d["values"] = kids
    elif k == "struct":
        d["fields"] = list(kids)
    elif k == "union":
        d["types"] = list(kids)
    return d


def builtin_names(t):
    for a, b in M.BUILTINS.items():
        if b["k"] != t["k"]:
            continue
        if all(b.get(p, M.DEFAULTS[b["k"]].get(p)) == t.get(p, M.DEFAULTS[t["k"]].get(p)) for p in M.PARAMS[t["k"]]) \
                and b.get("logical") == t.get("logical") \
                and all(k in t.get("x", {}) and t["x"][k] == v for k, v in b.get("x", {}).items()) \
                and not t.get("alias"):
            yield a


def spellings(t, budget):
    """All spellings of a term in which at most `budget` nodes depart from the minimal one."""
    kids = [list(spellings(c, budget)) for _, c in M.children(t)]
    for combo in itertools.product(*kids):
        used = sum(c for _, c in combo)
        if used > budget:
            continue
        for d, cost in node_spellings(t, [d for d, _ in combo]):
            if used + cost <= budget:
                yield d, used + cost


def node_spellings(t, combo):
    k = t["k"]
    m = attach(t, minimal(t), combo)
    yield m, 0
    yield attach(t, M.long_dict(t), combo), 1
    yield dict(m, optional=False), 1
    if len(m) == 1:
        yield m["type"], 1
    if k == "struct" and not t["f"]:
        yield {a: b for a, b in m.items() if a != "fields"}, 1
    if k not in ("proxy", "union", "struct", "list", "map", "enum"):
        for a in builtin_names(t):
            x = {n: v for n, v in t.get("x", {}).items() if n not in M.BUILTINS[a].get("x", {})}
            d = {"type": a, **x}
            if t.get("doc") is not None:
                d["doc"] = t["doc"]
            yield d, 1
            if len(d) == 1:
                yield a, 1
    if k == "union":
        rest = {a: b for a, b in m.items() if a not in ("type", "types")}
        yield {"type": list(combo), **rest}, 1
        if not rest:
            yield list(combo), 1
        x = t.get("x", {})
        ts = t["t"]
        nulls = [c for c in ts if c["k"] == "null"]
        if "default" in x and ts and ts[0] == NULL and len(nulls) == 1:
            r2 = {a: b for a, b in rest.items() if not (a == "default" and b is None)}
            yield {"type": "union", "types": list(combo), "optional": True, **r2}, 1
            yield {"type": "union", "types": list(combo[1:]), "optional": True, **r2}, 1
            yield {"type": list(combo[1:]), "optional": True, **r2}, 1
            yield {"type": list(combo), "optional": True, **r2}, 1
            if len(ts) == 2 and ts[1]["k"] != "union" and not t.get("alias") and not t.get("logical") \
                    and set(x) <= {"default", "name"} and ts[1].get("doc") is None \
                    and not set(ts[1].get("x", {})) & {"default", "name"}:
                n = combo[1]
                n = dict(n) if isinstance(n, dict) else {"type": n} if isinstance(n, str) else None
                if n is not None and n.get("optional") is not False:
                    if n.get("doc", 0) is None:
                        n.pop("doc")
                    yield {**n, "optional": True, **r2}, 1


def cases(tier):
    q = tier == "quick"
    for t in M.BUILTINS.values():
        for k in (0, 1):
            for u in M.deviate(t, k):
                yield {"t": u}
    for a in M.BUILTINS:
        for k in (0, 1, 2):
            for u in M.deviate({"k": "proxy", "alias": a}, k):
                yield {"t": u}
    leaves = [NULL, INT, STR, PA, PB, ENUM, {"k": "bool"}, {"k": "bytes"}, {"k": "float", "bits": 64}]
    for l in leaves:
        for k in range(0, 3 if q else 4):
            for u in M.deviate(l, k):
                yield {"t": u}
    for t in M.shapes(2, [NULL, INT, STR, PA]):
        for k in range(0, 3):
            for u in M.deviate(t, k):
                yield {"t": u}
    for t in M.shapes(3, [NULL, INT, PA]):
        for k in range(0, 2):
            for u in M.deviate(t, k):
                yield {"t": u}
    base = {"k": "union", "t": [NULL, INT], "x": {"default": None}}
    for x in (INT, STR, PA, ENUM, {"k": "list", "v": INT}, {"k": "struct", "f": [INT]}, base):
        for k in range(0, 2 if q else 3):
            for u in M.deviate({"k": "union", "t": [NULL, x], "x": {"default": None}}, k):
                yield {"t": u}
                for w in ({"k": "list", "v": u}, {"k": "struct", "f": [u, NULL]}, {"k": "map", "key": STR, "v": u},
                          {"k": "union", "t": [INT, u]}):
                    yield {"t": w}
    for t in odd_terms():
        for u in M.odd(t):
            yield {"t": u}
    if not q:
        for t in M.shapes(3, [NULL, INT, PA, PB]):
            for u in M.deviate(t, 2, few):
                yield {"t": u}
        for t in M.shapes(4, [NULL, INT]):
            for k in (0, 1):
                for u in M.deviate(t, k, few):
                    yield {"t": u}


def run_case(case, ctx):
    t = case["t"]
    want = M.term_snap(t, True)
    seen = set()
    ctx.count(states=1)
    for d, cost in spellings(t, 2 if ctx.tier == "quick" else 3):
        js = json.dumps(d)
        if js in seen:
            continue
        seen.add(js)
        d0 = copy.deepcopy(d)
        r = observe(rt.from_dict, d)
        ctx.count(transitions=1)
        if r[0] != "ok":
            ctx.fail("rejects:" + js, f"from_dict({js}) raised {r[1:]}")
            continue
        got = M.snap(r[1], True)
        if got != want:
            ctx.fail("differs:" + js, f"from_dict({js})\n got {got}\nwant {want}")
            continue
        if M.freeze(d) != M.freeze(d0):
            ctx.fail("mutates:" + js, f"from_dict changed its input to {d}")
            continue
        ctx.count(traces=1)
        if cost > 1:
            continue
        r2 = observe(rt.from_dict, d)
        ctx.count(transitions=1)
        if r2[0] != "ok" or M.snap(r2[1]) != M.snap(r[1]):
            ctx.fail("again:" + js, f"second read differs: {r2}")
        # a built-in reference resolves to the documented type
        for p in M.walk_obj(r[1]):
            if type(p).__name__ == "ProxyType" and p.alias in M.BUILTINS:
                rr = observe(p.resolve)
                b = M.expand_builtin({"alias": p.alias, "x": dict(p.extra_attrs)})
                b["doc"] = None
                if rr[0] != "ok":
                    ctx.fail("resolve:" + js, f"{p.alias} does not resolve: {rr}")
                else:
                    g = M.snap(rr[1])
                    g = g[:4] + (None,) + g[5:]
                    w = M.term_snap(b)
                    if p.logical is None and g != w:
                        ctx.fail("resolve:" + js, f"{p.alias} resolves to {g} want {w}")
    ctx.outcome(f"spellings<={2 ** (len(seen) - 1).bit_length()}")
