"""Equality of types, over all ordered pairs of terms; independence of copies; validity asked directly."""
import copy, json
from mc import terms as M
from mc.engine import observe
import recap.types as rt
from checks.C01 import NULL, INT, STR, PA, PB, ENUM, FULL

PID = "C29"
RULE = ("all ordered pairs of the types in the pool (every leaf, every container of up to 3 nodes and 3 children, each with every combination of at most k attribute "
        "deviations): equal exactly when their parts are; every type against values that are not types; for every type a rebuilt one, a copy, a copy of the copy and the "
        "type after it has been described, resolved and made nullable; a copy that is changed at each of its nodes in turn; recursive types from descriptions")
ASSUMPTIONS = ["attributes that Python itself calls equal (1, 1.0 and True) are not told apart", "references are equal when they name the same alias with the same overrides"]
CASE_TIMEOUT = 300
DYNAMIC = True
_pool = {}


def terms(tier):
    seen, out = set(), []
    def add(ts):
        for t in ts:
            s = M.term_snap(t)
            if s not in seen:
                seen.add(s)
                out.append(t)
    for l in FULL:
        for k in (0, 1):
            add(M.deviate(l, k))
    for l in (NULL, INT, STR, PA, {"k": "bool"}, ENUM):
        add(M.deviate(l, 2))
    for t in M.shapes(2, [NULL, INT, STR, PA, ENUM]):
        for k in (0, 1):
            add(M.deviate(t, k))
    for t in M.shapes(3, [NULL, INT, STR]):
        add([t])
    for t in M.shapes(3, [INT, PA], maxw=2):
        add(M.deviate(t, 1))
    add([{"k": "enum", "symbols": list(s)} for s in ("A", "BA", "AA", "ABC", "ab")])
    add([{"k": "list", "v": INT, "length": n, "variable": v} for n in (1, 2, 3) for v in (True, False)])
    for x in ({"a": 1, "b": 2}, {"b": 1, "a": 2}, {"a": [1, 2]}, {"a": [2, 1]}, {"a": {"c": 1}}, {"a": {"c": 2}}, {"a": "1"}, {"a": None}, {"b": None}):
        add([dict(INT, x=x), dict(PA, x=x), {"k": "struct", "f": [dict(INT, x=x)]}, {"k": "list", "v": INT, "x": x}, {"k": "union", "t": [NULL, dict(INT, x=x)]}])
    for t in (INT, PA):
        # Python's True and False equal 1 and 0
        add(u for u in M.odd(t) if not u.get("alias") and not any(v is True or v is False for v in u.get("x", {}).values()))
    if tier == "thorough":
        for t in M.shapes(2, [NULL, INT, PA]):
            add(M.deviate(t, 2))
        for t in M.shapes(4, [INT, PA], maxw=3):
            add([t])
    return out


def pool(tier):
    if tier not in _pool:
        reg = rt.RecapTypeRegistry()
        ts = terms(tier)
        _pool[tier] = [(t, M.term_snap(t), M.build(t, reg)) for t in ts]
    return _pool[tier]


def BOUNDS(tier):
    n = len(terms(tier))
    return {"types": n, "ordered pairs": n * n, "nodes": 3 if tier == "quick" else 4, "deviations": 2}


def cases(tier):
    n = len(terms(tier))
    for i in range(0, n, 8):
        yield {"rows": i, "tier": tier}
    yield {"recursive": 1}


OTHERS = [None, 0, 1, "", "int", "null", [], {}, (), True, object(), int, {"type": "null"}, Exception()]


def change(o):
    """Every node of a type, with a change to it."""
    for i, _ in enumerate(M.walk_obj(o)):
        def at(c, i=i):
            n = list(M.walk_obj(c))[i]
            n.extra_attrs["zz"] = 1
            n.doc = "zz"
            for a in ("fields", "types", "symbols"):
                if hasattr(n, a):
                    getattr(n, a).append("ZZ" if a == "symbols" else rt.NullType())
            for v in n.extra_attrs.values():
                if isinstance(v, list):
                    v.append("zz")
                if isinstance(v, dict):
                    v["zz"] = 1
        yield at


def single(ctx, t, s, o, key):
    reg = rt.RecapTypeRegistry()
    for z in OTHERS:
        ctx.count(transitions=1)
        for e in (observe(lambda: o == z), observe(lambda: z == o), observe(lambda: not (o != z))):
            if e[0] != "ok" or e[1] is not False and e[1] is not NotImplemented:
                ctx.fail("other:" + key, f"{o} and {z!r}: {e}")
    again = M.build(t, reg)
    c = observe(lambda: copy.deepcopy(o))
    cc = observe(lambda: copy.deepcopy(c[1]))
    for what, x in (("rebuilt", ("ok", again)), ("copy", c), ("copy of the copy", cc), ("itself", ("ok", o))):
        ctx.count(transitions=1)
        if x[0] != "ok":
            ctx.fail("copy:" + key, f"{o}: {x}")
            return
        if not (o == x[1] and x[1] == o) or o != x[1] or M.snap(x[1]) != s:
            ctx.fail(f"unequal:{what}:" + key, f"{o} is not equal to its {what} {x[1]}")
    for at in change(o):
        x = copy.deepcopy(o)
        at(x)
        ctx.count(transitions=1)
        if x == o or not x != o:
            ctx.fail("changed copy:" + key, f"{x} equals {o}")
        if M.snap(o) != s or o != again:
            ctx.fail("shared:" + key, f"changing a copy changed {o}")
            return
    # using a type doesn't change what it equals
    for f in (lambda: rt.to_dict(again), lambda: rt.to_dict(again, clean=False, alias=False), lambda: again.make_nullable(), lambda: again.is_nullable(), lambda: repr(again),
              lambda: again.validate(), lambda: again.resolve()):
        observe(f)
        ctx.count(transitions=1)
        if not (o == again and again == o):
            ctx.fail("used:" + key, f"{o} is not equal to itself after use")
    ctx.outcome("single")


def recursive(ctx):
    descs = [{"type": "struct", "alias": "a.N", "fields": [{"type": "a.N", "name": "n", "optional": o}, {"type": "list", "values": "a.N", "name": "l"}, dict(x, name="x")]}
             for o in (True, False) for x in ({"type": "int", "bits": 32}, {"type": "int", "bits": 64}, {"type": "a.N", "doc": "d"})]
    for i, a in enumerate(descs):
        for j, b in enumerate(descs):
            for res in range(4):
                x, y = rt.from_dict(a), rt.from_dict(b)
                for o, bit in ((x, 1), (y, 2)):
                    if res & bit:
                        for n in list(M.walk_obj(o)):
                            if isinstance(n, rt.ProxyType):
                                n.resolve().fields[1].values.resolve()
                ctx.count(states=1, transitions=1, traces=1)
                e = observe(lambda: (x == y, y == x, x != y, copy.deepcopy(x) == y))
                if e != ("ok", (i == j, i == j, i != j, i == j)):
                    ctx.fail("recursive", f"{a} and {b}, resolved {res}: {e}")
    ctx.outcome("recursive")


def run_case(case, ctx):
    if "recursive" in case:
        return recursive(ctx)
    ps = pool(case["tier"])
    other = _pool.setdefault(case["tier"] + "2", [M.build(t, rt.RecapTypeRegistry()) for t, _, _ in ps])
    for i in range(case["rows"], min(case["rows"] + 8, len(ps))):
        t, s, o = ps[i]
        key = json.dumps(t, sort_keys=True)
        ctx.count(states=1, traces=1)
        single(ctx, t, s, o, key)
        n = 0
        for j, (_, s2, _) in enumerate(ps):
            p = other[j]
            n += 1
            try:
                e = o == p
                bad = e is not (s == s2) or (o != p) is e
            except Exception as ex:
                e, bad = repr(ex), True
            if bad:
                ctx.fail("pair:" + key, f"{o} == {p} gives {e}")
        ctx.count(transitions=n)
        ctx.outcome("pairs", n)
