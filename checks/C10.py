"""Concurrent registry requests: all interleavings of the real ASGI app, checked for linearizability."""
import itertools, json, os
from urllib.parse import quote
from mc import terms as M
from mc import sched as S
from mc.asgi import Response, scope
from mc.faultfs import FaultFS, Disk

PID = "C10"
RULE = ("for every set of 2 (and 3) requests of the alphabet and every initial content, every interleaving of the real "
        "application's event-loop callbacks, worker threads (at file-system primitives) and body-chunk arrivals with at most "
        "the stated number of preemptions; responses and final contents must equal those of some order of the requests "
        "compatible with real time")
ASSUMPTIONS = ["one server process (several processes sharing a storage are outside the property)",
               "in-memory file system with atomic primitives; a write becomes visible empty, then partial, then complete",
               "callbacks of one request run in the order the application scheduled them"]
CASE_TIMEOUT = 400
RECAP = "application/x-recap+json"
BODY = {"i": b'{"type": "struct", "fields": [{"type": "int", "bits": 24, "name": "a"}]}',
        "s": b'{"type": "string", "bytes": 5}', "bad": b'{"type": "int"}'}
TERM = {"i": {"k": "struct", "f": [{"k": "int", "bits": 24, "x": {"name": "a"}}]}, "s": {"k": "string", "bytes": 5}}
# method, name, version, body, chunks
OPS = {"post_i": ("POST", 0, None, "i", 2), "post_s": ("POST", 0, None, "s", 1),
       "put1_s": ("PUT", 0, 1, "s", 2), "put1_i": ("PUT", 0, 1, "i", 1), "put2_s": ("PUT", 0, 2, "s", 1), "put2_i": ("PUT", 0, 2, "i", 1),
       "get": ("GET", 0, None, None, 0), "get1": ("GET", 0, 1, None, 0), "get2": ("GET", 0, 2, None, 0),
       "vers": ("VERS", 0, None, None, 0), "list": ("LIST", 0, None, None, 0),
       "bad": ("PUT", 0, 1, "bad", 1), "other": ("POST", 1, None, "i", 1)}
WR = ["post_i", "post_s", "put1_s", "put1_i", "put2_s", "put2_i"]
INIT = {"empty": [], "v1": [("POST", 0, None, "i")]}
RAWINIT = INIT
TRIPLES = ([w for w in itertools.combinations_with_replacement(["post_i", "post_s", "put1_s", "put2_i"], 3)]
           + [w + (g,) for w in itertools.combinations_with_replacement(["post_i", "put1_s", "put2_s"], 2) for g in ("get", "vers")])


def BOUNDS(tier):
    return {"pair_preemptions": 2 if tier == "quick" else 3, "triple_preemptions": 1 if tier == "quick" else 2,
            "operations": len(OPS), "triples": len(TRIPLES), "initial_states": list(INIT)}


def cases(tier):
    b2, b3 = (2, 1) if tier == "quick" else (3, 2)
    for init in INIT:
        for a, b in itertools.combinations_with_replacement(OPS, 2):
            if a in WR or b in WR:
                yield {"init": init, "ops": [a, b], "bound": b2}
        for t in TRIPLES:
            yield {"init": init, "ops": list(t), "bound": b3}


sched = None
app = None
N = [0]


def start_worker(ctx):
    global sched, app
    os.environ["RECAP_REGISTRY_STORAGE_URL"] = "fault://host/reg"
    import anyio.to_thread
    from recap.server.app import app as a
    app = a
    sched = S.Sched()

    async def run_sync(func, *args, **kw):
        return await sched.thread(lambda: func(*args))
    anyio.to_thread.run_sync = run_sync


def url(names, op):
    m, ni, v, b, _ = op
    if m == "LIST":
        return "GET", "/registry/"
    p = "/registry/" + quote(names[ni], safe="")
    if m == "VERS":
        return "GET", p + "/versions"
    return m, p + (f"/versions/{v}" if v is not None else "")


async def arequest(names, op, clock, rid):
    method, path = url(names, op)
    hs = [(b"host", b"h"), (b"content-type", RECAP.encode())] if op[3] else [(b"host", b"h")]
    body = BODY[op[3]] if op[3] else b""
    parts = [body] if op[4] < 2 else [body[:7], body[7:]]
    r = Response()
    loop = S.asyncio.get_running_loop()

    async def receive():
        # a chunk arrives whenever the scheduler lets this callback run
        fut = loop.create_future()
        loop.call_soon(lambda: fut.set_result(None))
        await fut
        if parts:
            b = parts.pop(0)
            return {"type": "http.request", "body": b, "more_body": bool(parts)}
        return {"type": "http.disconnect"}

    async def send(m):
        if m["type"] == "http.response.start":
            r.status = m["status"]
        elif m["type"] == "http.response.body":
            r.body += m.get("body", b"")
    clock.append(("call", rid))
    try:
        await app(scope(method, path, hs), receive, send)
    except Exception as e:
        r.exc, r.status = e, 500
    clock.append(("ret", rid))
    return r


class Model:
    """The sequential registry: every response as a comparable value."""
    def __init__(self, st=None):
        self.st = {k: dict(v) for k, v in (st or {0: {}, 1: {}}).items()}

    def apply(self, op):
        m, ni, v, b = op[:4]
        st = self.st[ni]
        if m in ("POST", "PUT") and b == "bad":
            return ("refused",)
        if m == "POST":
            n = max(st) + 1 if st else 1
            st[n] = b
            return ("ok", n)
        if m == "PUT":
            if v in st:
                return ("conflict",)
            st[v] = b
            return ("ok", v)
        if m == "GET":
            if v is None:
                v = max(st) if st else None
            return ("type", st[v], v) if v in st else ("absent",)
        if m == "VERS":
            return ("vers", tuple(sorted(st))) if st else ("absent",)
        if m == "LIST":
            return ("names", tuple(k for k in sorted(self.st) if self.st[k]))

    def key(self):
        return {k: dict(v) for k, v in self.st.items()}


def seen(op, r, names):
    """What a client learned from the response, in the model's terms."""
    import recap.types as rt
    m = op[0]
    if r.status in (400, 422) and op[3] == "bad":
        return ("refused",)
    if r.status == 409 and m == "PUT":
        return ("conflict",) if op[3] != "bad" else ("refused",)
    if r.status == 404:
        return ("absent",)
    if r.status not in (200, 201):
        return ("error", r.status, repr(r.exc)[:200])
    try:
        j = r.json()
        if m in ("POST", "PUT"):
            return ("ok", j)
        if m == "GET":
            s = M.snap(rt.from_dict(j[0]))
            return ("type", next((k for k in TERM if M.term_snap(TERM[k]) == s), "other"), j[1])
        if m == "VERS":
            return ("vers", tuple(j))
        return ("names", tuple(i for i, n in enumerate(names) if n in j))
    except Exception as e:
        return ("error", 200, repr(e)[:200])


FINAL = [("VERS", 0, None, None, 0), ("GET", 0, None, None, 0), ("GET", 0, 1, None, 0), ("GET", 0, 2, None, 0), ("GET", 0, 3, None, 0),
         ("GET", 0, 4, None, 0), ("VERS", 1, None, None, 0), ("GET", 1, 1, None, 0), ("LIST", 0, None, None, 0)]
BASES = {}


def sequential(names, ops):
    """Run requests one after another, undisturbed."""
    out = []
    for op in ops:
        clock = []
        res = sched.run({0: arequest(names, op, clock, 0)}, [])
        out.append(seen(op, res[0], names))
    return out


def run_case(case, ctx):
    ops = [OPS[o] for o in case["ops"]]
    init = INIT[case["init"]]
    state = {}

    def make():
        # names are never reused, so nothing an implementation may remember about a name can be stale
        N[0] += 1
        names = [f"n{N[0]}", f"m{N[0]}"]
        FaultFS.disk = Disk()
        sched.quiet = True
        m0 = Model()
        pre = [i + (1,) for i in init]
        got = sequential(names, pre)
        want = [m0.apply(o) for o in pre]
        if got != want:
            ctx.fail("setup", f"{pre}: {got} instead of {want}")
        FaultFS.disk.hook = hook
        state.update(names=names, clock=[], m0=m0)
        return {i: arequest(names, op, state["clock"], i) for i, op in enumerate(ops)}

    def hook(kind, path, mutates=True):
        if kind == "write" and len(FaultFS.disk.files.get(path, b"")) > 1:
            return          # empty, one byte, complete: the three distinguishable stages of a write
        sched.primitive(kind, path, mutates)

    outcomes = set()

    def check(res, choices):
        names, clock, m0 = state["names"], state["clock"], state["m0"]
        FaultFS.disk.hook = None
        got = {i: seen(ops[i], r, names) for i, r in res.items()}
        final = sequential(names, FINAL)
        ctx.count(transitions=len(choices) + 1, traces=1)
        outcomes.add((tuple(sorted(got.items())), tuple(final)))
        # real-time order: i before j if i returned before j was called
        pos = {e: k for k, e in enumerate(clock)}
        for perm in itertools.permutations(range(len(ops))):
            if any(pos[("ret", perm[b])] < pos[("call", perm[a])] for a in range(len(perm)) for b in range(a + 1, len(perm))):
                continue
            m = Model(m0.st)
            if all(m.apply(ops[i]) == got[i] for i in perm) and [m.apply(o) for o in FINAL] == final:
                return
        ctx.fail("not-linearizable:" + "+".join(case["ops"]) + ":" + case["init"],
                 f"requests {case['ops']} on {case['init']} contents: responses {got}, final contents {final}; "
                 f"no order of the requests gives this.  schedule={choices} history={clock}")

    try:
        n = S.explore(sched, make, check, case["bound"])
    except (S.Deadlock, S.Diverged) as e:
        ctx.fail(type(e).__name__ + ":" + "+".join(case["ops"]), str(e))
        return
    ctx.count(states=n)
    ctx.outcome("executions", n)
    ctx.outcome("distinct-outcomes", len(outcomes))
