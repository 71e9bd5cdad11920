"""Crash points, torn writes and I/O errors of the storage write path."""
import errno, itertools, json
from mc import terms as M
from mc.engine import observe, Hang
from mc.faultfs import FaultFS, Disk, Crash
import recap.types as rt
from recap.storage.registry import RegistryStorage

PID = "C08"
LEVEL = "fault_enumeration"
RULE = ("every history of up to d acknowledged puts followed by one in-flight put; for each, every file-system step of the "
        "in-flight put (each written byte is a step) is taken as a crash point, and as an I/O error point (EIO, ENOSPC) after which the "
        "process lives on; plus puts whose type cannot be serialised. Non-trivial: the fault fires while "
        "the in-flight put runs")
ASSUMPTIONS = ["renames are atomic and the file system does not reorder data writes after a later rename",
               "after a crash a name whose first version was in flight may be listed without versions"]
TYPES = {"i": {"k": "int", "bits": 24}, "s": {"k": "struct", "f": [{"k": "bool", "x": {"name": "b"}}]}}
NAMES = ["n", "n/1"]
OPS = [(n, t, v) for n in NAMES for t in TYPES for v in (None, 1, 10)]


def BOUNDS(tier):
    return {"operations": len(OPS), "acknowledged_before": "2 (reduced alphabet at 2)" if tier == "quick" else "3 (reduced alphabet at 3)", "in_flight": 1,
            "faults": ["crash", "EIO", "ENOSPC", "unserialisable type"]}


def cases(tier):
    few = [("n", "i", None), ("n", "s", None), ("n", "s", 10), ("n/1", "i", 1)]
    for d in range(0, 3 if tier == "quick" else 4):
        for h in itertools.product(OPS if d < (2 if tier == "quick" else 3) else few, repeat=d):
            yield {"hist": [list(x) for x in h]}


def put(st, n, t, v):
    o = M.build(TYPES[t], rt.RecapTypeRegistry())
    return st.put(n, o) if v is None else st.put(n, o, v)


def attempt(fn):
    try:
        return ("ok", fn())
    except Hang:
        raise
    except Crash:
        return ("crash",)
    except BaseException as e:
        return ("err", type(e).__name__, str(e))


def run_case(case, ctx):
    hist = [tuple(x) for x in case["hist"]]
    FaultFS.disk = Disk()
    st = RegistryStorage("fault://reg/root")
    model = {}
    for n, t, v in hist:
        g = attempt(lambda: put(st, n, t, v))
        m = model.setdefault(n, {})
        want = v if v is not None else (max(m) + 1 if m else 1)
        if g != ("ok", want):
            ctx.fail("put:" + json.dumps(hist), f"{g} want {want}")
            return
        m[want] = t
    base = FaultFS.disk
    for op in OPS:
        inflight(base, model, hist, op, ctx)
    unserialisable(base, model, hist, ctx)


def inflight(base, model, hist, op, ctx):
    n, t, v = op
    m = model.get(n, {})
    ver = v if v is not None else (max(m) + 1 if m else 1)
    # fault-free run counts the steps
    d = base.clone()
    FaultFS.disk = d
    steps = []
    d.hook = lambda kind, path, mut: steps.append((kind, mut))
    st = RegistryStorage("fault://reg/root")
    n0 = len(steps)
    g = attempt(lambda: put(st, n, t, v))
    d.hook = None
    if g != ("ok", ver):
        ctx.fail("put:" + json.dumps([hist, op]), f"{g}")
        return
    check(d, model, n, ver, t, "done", ctx, (hist, op, "no fault"))
    total = len(steps)
    for k in range(n0, total):
        for fault in ("crash", "EIO", "ENOSPC"):
            kind, mut = steps[k]
            if fault == "ENOSPC" and kind not in ("write", "create", "mkdir"):
                continue
            d = base.clone()
            FaultFS.disk = d
            cnt = [0]

            def hook(kind, path, mut, d=d, cnt=cnt, k=k, fault=fault):
                i = cnt[0]
                cnt[0] += 1
                if i == k:
                    if fault == "crash":
                        d.dead = True
                        raise Crash()
                    raise OSError(getattr(errno, fault), fault, path)
            d.hook = hook
            st = RegistryStorage("fault://reg/root")
            g = attempt(lambda: put(st, n, t, v))
            d.hook = None
            d.dead = False
            ctx.count(states=1, transitions=1)
            where = (hist, op, f"{fault} at step {k - n0} ({kind})")
            ctx.outcome(f"{fault}: put {g[0]}")
            if g[0] == "ok":
                # a put that reports success in spite of the fault must have stored the version
                if g[1] != ver:
                    ctx.fail("ack:" + json.dumps(where), f"returned {g}")
                mode = "done"
            else:
                mode = "maybe"
            check(d, model, n, ver, t, mode, ctx, where)
            # retry on the surviving disk
            FaultFS.disk = d
            st2 = RegistryStorage("fault://reg/root")
            vs = attempt(lambda: st2.versions(n))
            cur = vs[1] or [] if vs[0] == "ok" else []
            g2 = attempt(lambda: put(st2, n, t, v))
            want = v if v is not None else (max(cur) + 1 if cur else 1)
            if g2 != ("ok", want):
                ctx.fail("retry:" + json.dumps(where), f"retry gave {g2}, want {want}; versions before retry {vs}")
            else:
                g3 = attempt(lambda: st2.get(n, want))
                if not same(g3, t, want):
                    ctx.fail("retry:" + json.dumps(where), f"after retry get gives {g3}")
            ctx.count(traces=1)


def same(g, t, v):
    return g[0] == "ok" and g[1] is not None and g[1][1] == v and M.snap(g[1][0], True) == M.term_snap(TYPES[t], True)


def check(d, model, n, ver, t, mode, ctx, where):
    key = json.dumps(where)
    FaultFS.disk = d.clone()
    st = RegistryStorage("fault://reg/root")

    def bad(msg):
        ctx.fail(key, f"{where}: {msg}; disk {dict(FaultFS.disk.files)}")

    names = set(model) | {n}
    present = {}
    for nm in sorted(names):
        old = model.get(nm, {})
        vs = attempt(lambda: st.versions(nm))
        if vs[0] != "ok":
            return bad(f"versions({nm!r}) -> {vs}")
        vs = vs[1] or []
        allowed = set(old) | ({ver} if nm == n else set())
        if not set(old) <= set(vs) or not set(vs) <= allowed or vs != sorted(vs):
            return bad(f"versions({nm!r}) = {vs}, acknowledged {sorted(old)}")
        if nm == n and mode == "done" and ver not in vs:
            return bad(f"acknowledged version {ver} of {nm!r} missing")
        present[nm] = vs
        for v in vs:
            g = attempt(lambda: st.get(nm, v))
            ok = []
            if nm == n and v == ver:
                ok.append(t)
                if mode == "maybe" and v in old:
                    ok.append(old[v])
            else:
                ok.append(old[v])
            if not any(same(g, x, v) for x in ok):
                return bad(f"get({nm!r}, {v}) -> {g}, want one of {ok}")
        for v in (ver, 1, 10):
            if v not in vs:
                g = attempt(lambda: st.get(nm, v))
                if g != ("ok", None):
                    return bad(f"get({nm!r}, {v}) -> {g} although not listed")
        g = attempt(lambda: st.get(nm))
        if vs:
            if g[0] != "ok" or g[1] is None or g[1][1] != max(vs):
                return bad(f"latest of {nm!r} -> {g}, versions {vs}")
        elif g != ("ok", None):
            return bad(f"latest of {nm!r} -> {g}, no versions")
    ls = attempt(lambda: st.ls())
    if ls[0] != "ok" or not set(model) <= set(ls[1]) or not set(ls[1]) <= names \
            or len(set(ls[1])) != len(ls[1]) or any(present[x] and x not in ls[1] for x in names):
        return bad(f"ls -> {ls}")


def unserialisable(base, model, hist, ctx):
    for n in NAMES:
        for v in (None, 1):
            for o in (rt.IntType(8, blob={1, 2}), rt.StructType([rt.BoolType(name="a"), rt.IntType(8, blob=object())])):
                d = base.clone()
                before = {p: b for p, b in d.files.items()}
                FaultFS.disk = d
                st = RegistryStorage("fault://reg/root")
                g = attempt(lambda: st.put(n, o) if v is None else st.put(n, o, v))
                ctx.count(states=1, transitions=1, traces=1)
                ctx.outcome("unserialisable: put " + g[0])
                where = (hist, n, v, "unserialisable type")
                if g[0] == "ok":
                    ctx.fail("accepted:" + json.dumps(where), f"put of an unserialisable type returned {g}")
                    continue
                st2 = RegistryStorage("fault://reg/root")
                for nm in set(model) | {n}:
                    old = model.get(nm, {})
                    vs = attempt(lambda: st2.versions(nm))
                    if vs[0] != "ok" or sorted(vs[1] or []) != sorted(old):
                        ctx.fail("unserialisable:" + json.dumps(where), f"versions({nm!r}) -> {vs}, want {sorted(old)}")
                        continue
                    for vv in old:
                        g = attempt(lambda: st2.get(nm, vv))
                        if not same(g, old[vv], vv):
                            ctx.fail("unserialisable:" + json.dumps(where), f"get({nm!r},{vv}) -> {g}")
