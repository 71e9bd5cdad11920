"""Registry storage: all operation sequences against a dict model, local and in-memory file systems."""
import itertools, json, os, shutil
import fsspec
from mc import terms as M
from mc.engine import observe
from mc.jail import SCRATCH
import recap.types as rt
from recap.storage.registry import RegistryStorage

PID = "C06"
RULE = ("every sequence of puts (2 names whose quoted forms are related, 2 types, versions none/1/2/10) up to the depth on a "
        "local directory and on the in-memory file system, long runs of versions from 12 starting points, and every arrangement of versions of different lengths; after the last step (and therefore in every reachable state) "
        "everything is read back through the same and through a reopened storage and compared with a dict model")
ASSUMPTIONS = ["single process; fsspec file and memory implementations are trusted"]

TYPES = {"i": {"k": "struct", "f": [{"k": "int", "bits": 24, "x": {"name": "a"}}]},
         "s": {"k": "union", "t": [{"k": "null"}, {"k": "string", "bytes": 5}], "doc": "é", "x": {"default": None}}}
NAMES = ["n", "n/1"]
VERSIONS = [None, 1, 2, 10]
OPS = [(n, t, v) for n in NAMES for t in TYPES for v in VERSIONS]
PROBE_V = [0, 1, 2, 3, 9, 10, 11, 12, 100]


def BOUNDS(tier):
    return {"operations": len(OPS), "depth_memory": 3 if tier == "quick" else 4, "depth_local": 3,
            "versions_in_one_history": 15 if tier == "quick" else 41, "version_orders": "all arrangements of 0, 2, 9, 10, 11, 100",
            "reduced_alphabet_depth": 5 if tier == "quick" else 7, "file_systems": ["file", "memory"]}


LONG = [[], [0], [7], [8], [9], [10], [98], [99], [5, 3], [10, 9], [2**31 - 1], [2**63 - 1]]
ORDERS = [0, 2, 9, 10, 11, 100]


RED = [("n", "i", None), ("n", "s", None), ("n", "s", 10), ("n/1", "i", None)]


def cases(tier):
    dl, dm = (3, 3) if tier == "quick" else (3, 4)
    for fs, depth in (("file", dl), ("memory", dm)):
        yield {"fs": fs, "seq": []}
        for first in range(len(OPS)):
            yield {"fs": fs, "first": first, "depth": depth}
    for fs in ("file", "memory"):
        # many versions of one name, and every order in which versions of different lengths arrive
        for lead in LONG:
            for k in range(14 if tier == "quick" else 40):
                yield {"fs": fs, "seq": [["n", "is"[i % 2], v] for i, v in enumerate(lead + [None] * k)]}
        for r in range(1, len(ORDERS) + 1):
            for o in itertools.permutations(ORDERS, r):
                yield {"fs": fs, "seq": [["n", "is"[i % 2], v] for i, v in enumerate(list(o) + [None])]}
    for fs in ("file", "memory"):
        for first in range(len(RED)):
            for second in range(len(RED)):
                yield {"fs": fs, "red": [first, second], "depth": 5 if tier == "quick" else 7}


def run_case(case, ctx):
    if "seq" in case:
        run_seq(case["fs"], [tuple(x) for x in case["seq"]], ctx)
    elif "red" in case:
        p = [RED[i] for i in case["red"]]
        for tail in itertools.product(RED, repeat=case["depth"] - 2):
            run_seq(case["fs"], p + list(tail), ctx)
    else:
        for d in range(0, case["depth"]):
            for tail in itertools.product(OPS, repeat=d):
                run_seq(case["fs"], [OPS[case["first"]]] + list(tail), ctx)


N = [0]


def run_seq(fs, seq, ctx):
    N[0] += 1
    if fs == "file":
        root = f"{SCRATCH}/c06-{os.getpid()}-{N[0]}/deep root"
        url = "file://" + root if N[0] % 2 else root
    else:
        url = root = f"memory://c06-{os.getpid()}/r{N[0] % 7}"
    try:
        _run(fs, url, seq, ctx)
    finally:
        if fs == "file":
            shutil.rmtree(os.path.dirname(root), ignore_errors=True)
        else:
            m = fsspec.filesystem("memory")
            m.store.clear()
            m.pseudo_dirs[:] = [""]


def _run(fs, url, seq, ctx):
    key = f"{fs}:{json.dumps(seq)}"
    model = {}
    r = observe(RegistryStorage, url)
    if r[0] != "ok":
        ctx.fail("open:" + key, str(r))
        return
    st = r[1]
    for i, (n, t, v) in enumerate(seq):
        m = model.setdefault(n, {})
        want = v if v is not None else (max(m) + 1 if m else 1)
        o = M.build(TYPES[t], rt.RecapTypeRegistry())
        g = observe(st.put, n, o, v) if i % 2 else observe(lambda: st.put(n, o) if v is None else st.put(n, o, version=v))
        ctx.count(transitions=1)
        if g != ("ok", want):
            ctx.fail("put:" + key, f"put {n} {t} {v} returned {g}, want version {want}")
            return
        m[want] = t
        # read your write immediately
        g = observe(st.get, n)
        mx = max(m)
        ctx.count(transitions=1)
        if g[0] != "ok" or g[1] is None or g[1][1] != mx or M.snap(g[1][0], True) != M.term_snap(TYPES[m[mx]], True):
            ctx.fail("latest:" + key, f"get latest after step {i} gave {g}, want version {mx} = {m[mx]}")
            return
    observe_all(st, model, "same", key, ctx)
    r = observe(RegistryStorage, url)
    if r[0] != "ok":
        ctx.fail("reopen:" + key, str(r))
        return
    observe_all(r[1], model, "reopened", key, ctx)
    ctx.count(states=1, traces=1)
    ctx.outcome(f"{fs}: {len(model)} names, {sum(len(v) for v in model.values())} versions")


def observe_all(st, model, label, key, ctx):
    def chk(what, got, want):
        ctx.count(transitions=1)
        if got != want:
            ctx.fail(f"{label} {what}:{key}", f"{label} {what}: got {got} want {want}")

    chk("ls", observe(st.ls), ("ok", sorted(model)))
    for n in NAMES + ["absent", "1", "n/1/1"]:
        m = model.get(n, {})
        if m:
            chk("versions " + n, observe(st.versions, n), ("ok", sorted(m)))
            chk("latest " + n, observe(st.latest, n), ("ok", max(m)))
        else:
            g = observe(st.versions, n)
            chk("versions " + n, (g[0], not g[1]), ("ok", True))
            chk("latest " + n, observe(st.latest, n), ("ok", None))
            chk("get " + n, observe(st.get, n), ("ok", None))
        for v in sorted({*PROBE_V, *m}):
            g = observe(st.get, n, v)
            if v in m:
                ok = g[0] == "ok" and g[1] is not None and g[1][1] == v and \
                    M.snap(g[1][0], True) == M.term_snap(TYPES[m[v]], True)
                chk(f"get {n} {v}", ok or g, True)
            else:
                chk(f"get {n} {v}", g, ("ok", None))
