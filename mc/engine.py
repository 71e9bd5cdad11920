"""Shared driver for all checks.

A check module (checks/Cxx.py) defines
    PID, LEVEL, RULE (text), ASSUMPTIONS (list), BOUNDS(tier) -> dict
    cases(tier) -> iterator of JSON-able cases (a deterministic, complete enumeration)
    run_case(case, ctx) -> None, reporting through ctx.fail(key, message)
Optionally
    PARALLEL = False     run everything in this process
    CASE_TIMEOUT = 60    seconds before a case counts as hung (a violation)
    DYNAMIC = True       each worker takes the next case instead of a fixed stride

The explorer enumerates every case, in worker processes that each take a stride of the
enumeration, and writes evidence/<id>.json.  Exit 0 when nothing (unlisted) failed, exit 1 with a
VIOLATION line otherwise.
"""
import hashlib, importlib, json, os, signal, sys, time, traceback, itertools
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
MAX_FAILS = 40


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states = 0          # distinct reference-model states / inputs visited
        self.transitions = 0     # calls into the real code whose outcome was compared
        self.traces = 0          # complete executions compared step by step with the model
        self.outcomes = {}       # outcome class -> count (guards against vacuity)
        self.samples = []
        self.fails = []          # (key, msg, case)
        self.nfails = 0
        self.case = None
        self.extra = {}

    def fail(self, key, msg):
        self.nfails += 1
        if len(self.fails) < MAX_FAILS or not any(k == key for k, _, _ in self.fails):
            if len(self.fails) < 400:
                self.fails.append((key, str(msg)[:4000], self.case))

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces


def observe(fn, *a, **k):
    """Run real code; an exception is an observation, not an error of the check."""
    try:
        return ("ok", fn(*a, **k))
    except Hang:
        raise
    except RecursionError as e:
        return ("err", "RecursionError", "recursion")
    except Exception as e:
        return ("err", type(e).__name__, str(e)[:500])


def load_known(pid):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: ") and f"property={pid} " in line:
                rest = line[len("known: "):]
                parts = rest.split(" ", 2)  # property=.. key=.. description
                key = parts[1][len("key="):]
                known[key] = parts[2] if len(parts) > 2 else key
    return known


def _run_stride(mod, tier, seed, k, n, q, shared=None):
    ctx = Ctx(mod.PID, tier, seed)
    err = None
    fast, known = os.environ.get("VERIF_FAST"), load_known(mod.PID)     # for experiments: stop at the first violation
    try:
        if not os.environ.get("VERIF_STDERR"):      # parsers under test chatter on stderr
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        signal.signal(signal.SIGALRM, _alarm)
        timeout = getattr(mod, "CASE_TIMEOUT", 60)
        start = getattr(mod, "start_worker", None)
        if start:
            start(ctx)
        mine = None
        only = os.environ.get("VERIF_ONLY")         # for experiments: only some cases
        for i, case in enumerate(mod.cases(tier)):
            if only and only not in json.dumps(case):
                continue
            if shared is None:
                if i % n != k:
                    continue
            else:
                if mine is None or mine < i:
                    with shared.get_lock():
                        mine = shared.value
                        shared.value += 1
                if i != mine:
                    continue
            ctx.case = case
            if len(ctx.samples) < 2 or (i < 2000 and i % 997 == 0 and len(ctx.samples) < 4):
                ctx.samples.append(case)
            signal.alarm(timeout)
            try:
                mod.run_case(case, ctx)
            except Hang:
                ctx.fail("hang:" + short(case), f"no answer within {timeout} s")
                break
            except MemoryError:
                ctx.fail("memory:" + short(case), "out of memory")
                break
            except Exception as e:
                ctx.fail("exc:" + type(e).__name__ + ":" + short(case),
                         "unexpected exception\n" + traceback.format_exc(limit=-6))
            finally:
                signal.alarm(0)
            if len(ctx.fails) >= 400 or fast and any(f[0] not in known for f in ctx.fails):
                break
        stop = getattr(mod, "stop_worker", None)
        if stop:
            stop(ctx)
    except BaseException:
        err = traceback.format_exc()
    q.put((k, dict(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces,
                   outcomes=ctx.outcomes, samples=ctx.samples, fails=ctx.fails,
                   nfails=ctx.nfails, extra=ctx.extra), err))


def short(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]


def main(argv):
    pid, tier = argv[0], argv[1] if len(argv) > 1 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    known = load_known(pid)
    sys.setrecursionlimit(3000)
    try:
        mod = importlib.import_module("checks." + pid)
    except Exception as e:
        # The code under test cannot even be imported: nothing works, so the property fails.
        p = os.path.join(EVID, "replay", f"{pid}.json")
        json.dump({"property": pid, "import_error": traceback.format_exc()}, open(p, "w"))
        traceback.print_exc()
        write_evidence(pid, "quick" if tier == "replay" else tier, seed, "model_checking",
                       {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                        "samples": ["import failed"]}, [], time.time() - t0, 1)
        print(f"VIOLATION property={pid} replay={p}")
        return 1

    if tier == "replay":
        data = json.load(open(argv[2]))
        ctx = Ctx(pid, "quick", seed)
        start = getattr(mod, "start_worker", None)
        if start:
            start(ctx)
        for f in data["failures"]:
            ctx.case = f["case"]
            mod.run_case(f["case"], ctx)
        stop = getattr(mod, "stop_worker", None)
        if stop:
            stop(ctx)
        for k, m, c in ctx.fails:
            print("FAIL", k, "\n ", m)
        if ctx.fails:
            print(f"VIOLATION property={pid} replay={argv[2]}")
            return 1
        print("replay: no violation")
        return 0

    n = min(8, os.cpu_count() or 1)
    if not getattr(mod, "PARALLEL", True):
        n = 1
    n = int(os.environ.get("VERIF_WORKERS") or getattr(mod, "WORKERS", n))
    mpc = mp.get_context("fork")
    q = mpc.Queue()
    shared = mpc.Value("l", 0) if getattr(mod, "DYNAMIC", False) else None
    procs = [mpc.Process(target=_run_stride, args=(mod, tier, seed, k, n, q, shared)) for k in range(n)]
    for p in procs:
        p.start()
    res, errs = {}, []
    pending = set(range(n))
    import queue as _q
    while pending:
        try:
            k, r, err = q.get(timeout=5)
            res[k] = r
            pending.discard(k)
            if err:
                errs.append(err)
        except _q.Empty:
            for k in list(pending):
                if not procs[k].is_alive() and procs[k].exitcode not in (0, None):
                    pending.discard(k)
                    errs.append(f"worker {k} died with exit code {procs[k].exitcode}")
    for p in procs:
        p.join(10)

    states = sum(r["states"] for r in res.values())
    trans = sum(r["transitions"] for r in res.values())
    traces = sum(r["traces"] for r in res.values())
    outcomes = {}
    extra = {}
    for r in res.values():
        for o, c in r["outcomes"].items():
            outcomes[o] = outcomes.get(o, 0) + c
        for o, c in r["extra"].items():
            if isinstance(c, (int, float)) and not isinstance(c, bool):
                extra[o] = extra.get(o, 0) + c
            else:
                extra[o] = c
    samples = [s for k in sorted(res) for s in res[k]["samples"]][:6]
    fails = [f for k in sorted(res) for f in res[k]["fails"]]
    # simplest first
    fails.sort(key=lambda f: (len(json.dumps(f[2], default=str)), f[0]))
    knownhit = {}
    real = []
    for k, m, c in fails:
        if k in known:
            knownhit.setdefault(k, (m, c))
        else:
            real.append((k, m, c))
    for e in errs:
        real.append(("worker-error", e, None))

    level = getattr(mod, "LEVEL", "model_checking")
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
           "samples": samples, "exhaustive": not real, "outcomes": outcomes,
           "rule": getattr(mod, "RULE", ""), "bounds": mod.BOUNDS(tier), "workers": n}
    if level in ("fault_enumeration", "exploration"):
        cov["evaluations"] = trans
        cov["distinct_nontrivial"] = states
    cov.update(extra)
    write_evidence(pid, tier, seed, level, cov, getattr(mod, "ASSUMPTIONS", []),
                   time.time() - t0, len(real))
    for k in known:
        if k in knownhit:
            print(f"KNOWN-FINDING: property={pid} {known[k]}")
    print(f"{pid} {tier}: states={states} transitions={trans} traces={traces} "
          f"outcomes={outcomes} wall={time.time()-t0:.1f}s failures={len(real)}")
    if real:
        p = os.path.join(EVID, "replay", f"{pid}.json")
        with open(p, "w") as f:
            json.dump({"property": pid, "how": f"bash run.sh {pid} replay {p}",
                       "failures": [{"key": k, "message": m, "case": c} for k, m, c in real[:20]]},
                      f, indent=1, default=str)
        for k, m, c in real[:int(os.environ.get("VERIF_SHOW", "5"))]:
            print("FAIL", k, "case=", json.dumps(c, default=str)[:1500])
            print("   ", m[:2500].replace("\n", "\n    "))
        print(f"VIOLATION property={pid} replay={p}")
        return 1
    return 0


def write_evidence(pid, tier, seed, level, cov, assumptions, wall, violations):
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": assumptions, "wall_s": round(wall, 3), "violations": violations},
                  f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
