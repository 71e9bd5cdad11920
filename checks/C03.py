"""Faults x contexts: invalid descriptions are rejected, their valid twins accepted."""
import itertools, json
from mc import terms as M
from mc.engine import observe
import recap.types as rt

PID = "C03"
RULE = ("every base fault (and every boundary-valid twin) placed at every nesting context up to the depth bound; pairs of "
        "alias definitions placed at every pair of positions")
ASSUMPTIONS = ["any raised exception counts as a rejection", "names that are not types are references and are accepted"]
B31, B63 = 2147483647, M.I64


def BOUNDS(tier):
    return {"context_depth": 2 if tier == "quick" else 3, "faults": len(BAD), "valid_twins": len(GOOD)}


BAD, GOOD = [], []


def bad(d):
    BAD.append(d)


def good(d):
    GOOD.append(d)


bad({}); bad({"bits": 32}); bad({"type": None}); bad({"type": 5}); bad({"type": None, "optional": True})
for k in ("int", "float"):
    bad({"type": k}); bad(k)
    for b in (0, -1, B31 + 1, 2 ** 40, -B31):
        bad({"type": k, "bits": b})
    for b in (1, 2, 8, 64, B31 - 1, B31):
        good({"type": k, "bits": b})
bad({"type": "int", "bits": 0, "signed": False}); good({"type": "int", "bits": 1, "signed": False})
for k in ("string", "bytes"):
    for b in (0, -1, B63 + 1, 2 ** 70):
        for v in (True, False):
            bad({"type": k, "bytes": b, "variable": v})
        bad({"type": k, "bytes": b})
    bad({"type": k, "variable": False}); bad({"type": k, "variable": False, "bytes": None})
    good(k); good({"type": k}); good({"type": k, "variable": True})
    for b in (1, 2, B31, B31 + 1, B63 - 1, B63):
        good({"type": k, "bytes": b}); good({"type": k, "bytes": b, "variable": False})
bad({"type": "list"}); bad("list")
good({"type": "list", "values": "null"})
bad({"type": "list", "values": "null", "variable": False})
for n in (0, -1, B63 + 1):
    bad({"type": "list", "values": "null", "length": n}); bad({"type": "list", "values": "null", "length": n, "variable": False})
for n in (1, 2, B63 - 1, B63):
    good({"type": "list", "values": "null", "length": n}); good({"type": "list", "values": "null", "length": n, "variable": False})
bad({"type": "map"}); bad({"type": "map", "keys": "string"}); bad({"type": "map", "values": "string"}); bad("map")
good({"type": "map", "keys": "string", "values": "null"})
bad({"type": "enum"}); bad("enum"); good({"type": "enum", "symbols": ["A"]})
bad({"type": "union"}); bad("union"); good({"type": "union", "types": ["null"]}); good(["null"])
good("struct"); good({"type": "struct"}); good({"type": "struct", "fields": []})
good("null"); good("bool"); good("int32"); good("uuid"); good("some.Alias")
for a in list(M.BUILTINS) + ["foo", "", "a.", ".a", "a..b", "1a.b", "a.1b", "a.b c", "a.b-c", "a b.c", "a.b\n", "\na.b", "a/b.c",
                             "é.b", "a.b."]:
    bad({"type": "int", "bits": 32, "alias": a})
    if a in ("int32", "foo", "a."):
        bad({"type": "struct", "fields": [], "alias": a}); bad({"type": "union", "types": ["null"], "alias": a})
        bad({"type": "enum", "symbols": [], "alias": a})
        bad({"type": "list", "values": "null", "alias": a})
for a in ("a.b", "A.B", "_a._b", "a.b.c.d", "a1.b2", "build.recap.Foo", "_root.x"):
    good({"type": "int", "bits": 32, "alias": a})

# the same with other attributes beside: none of them excuses the fault, or is one
BESIDE = [{"alias": "ok.Al"}, {"doc": "d"}, {"name": "n"}, {"default": None}, {"default": 0}, {"logical": "x.Y"}, {"foo": 1}, {"alias": "ok.Al", "doc": "d", "name": "n", "default": None}]
for ds in (BAD, GOOD):
    for d in list(ds):
        d = {"type": d} if isinstance(d, str) else d
        if isinstance(d, dict) and "alias" not in d:
            # a reference with an alias of its own isn't a definition
            ds.extend({**d, **b} for b in BESIDE if not ("alias" in b and d.get("type") in ("int32", "uuid", "some.Alias")))

CTX = {
    "list": lambda d: {"type": "list", "values": d},
    "key": lambda d: {"type": "map", "keys": d, "values": "null"},
    "val": lambda d: {"type": "map", "keys": "string", "values": d},
    "f0": lambda d: {"type": "struct", "fields": [d]},
    "f1": lambda d: {"type": "struct", "fields": ["null", d, "bool"]},
    "u0": lambda d: {"type": "union", "types": [d]},
    "u1": lambda d: ["null", d],
    "tl": lambda d: {"type": ["null", d], "name": "x"},
    "opt": lambda d: {**(d if isinstance(d, dict) else {"type": d} if isinstance(d, str) else {"type": d}), "optional": True},
    "al": lambda d: {"type": "struct", "alias": "ctx.S", "fields": [d]},
    "optstruct": lambda d: {"type": "struct", "fields": [d], "optional": True, "name": "s"},
}
NAMES = list(CTX)


def contexts(n):
    for d in range(n + 1):
        for c in itertools.product(NAMES, repeat=d):
            if c.count("al") > 1:
                continue
            yield c


def place(c, d):
    for n in reversed(c):
        d = CTX[n](d)
    return d


def cases(tier):
    for c in contexts(2 if tier == "quick" else 3):
        yield {"c": list(c)}
    for c1 in contexts(1 if tier == "quick" else 2):
        for c2 in contexts(1 if tier == "quick" else 2):
            yield {"dup": [list(c1), list(c2)]}


def run_case(case, ctx):
    if "c" in case:
        c = case["c"]
        for kind, ds in (("bad", BAD), ("good", GOOD)):
            for d in ds:
                if isinstance(d, dict) and d.get("optional") and c and c[-1] == "opt":
                    continue
                x = place(c, d)
                js = json.dumps(x)
                r = observe(rt.from_dict, x)
                ctx.count(states=1, transitions=1, traces=1)
                ctx.outcome(kind + ("-rejected" if r[0] == "err" else "-accepted"))
                if kind == "bad" and r[0] == "ok":
                    ctx.fail("accepted:" + js, f"invalid description accepted: {js}")
                if kind == "good" and r[0] != "ok":
                    ctx.fail("rejected:" + js, f"valid description rejected: {js}: {r[1:]}")
                if kind == "bad" and r[0] == "err" and r[1] == "RecursionError":
                    ctx.fail("recursion:" + js, f"{js}")
        return
    c1, c2 = case["dup"]
    inner = {"type": "int", "bits": 32, "alias": "a.D"}
    other = [{"type": "int", "bits": 32, "alias": "a.D"}, {"type": "struct", "fields": ["null"], "alias": "a.D"},
             {"type": "int", "bits": 32, "alias": "a.E"}, "a.D"]
    if "al" in c1 and "al" in c2:
        return
    for i, o in enumerate(other):
        for join in ("struct", "union", "map", "list"):
            a, b = place(c1, inner), place(c2, o)
            x = {"struct": {"type": "struct", "fields": [a, b]}, "union": [a, b],
                 "map": {"type": "map", "keys": a, "values": b},
                 "list": {"type": "struct", "fields": [{"type": "list", "values": a}, b]}}[join]
            js = json.dumps(x)
            r = observe(rt.from_dict, x)
            ctx.count(states=1, transitions=1, traces=1)
            ctx.outcome(("dup" if i < 2 else "nodup") + "-" + r[0])
            if i < 2 and r[0] == "ok":
                ctx.fail("dup:" + js, f"alias defined twice accepted: {js}")
            if i >= 2 and r[0] != "ok":
                ctx.fail("nodup:" + js, f"rejected although valid: {js}: {r[1:]}")
