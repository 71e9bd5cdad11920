"""Controlled scheduler for asyncio applications.

Everything runnable is an entity: the ready-queue of one request's loop callbacks, or one worker
thread started by the application (anyio.to_thread / run_in_executor), which pauses before every
file-system primitive.  Exactly one entity moves at a time; which one is the explorer's choice.
While a loop callback runs, worker threads may still move before each of its file-system
primitives (they are real threads in production)."""
import asyncio, collections, contextvars, threading

RID = contextvars.ContextVar("rid", default=None)


class Diverged(Exception):
    pass


class Deadlock(Exception):
    pass


class CThread:
    def __init__(self, sched, rid, fn, fut):
        self.s, self.rid, self.fn, self.fut = sched, rid, fn, fut
        self.go = threading.Semaphore(0)
        self.done = False
        self.blocked_on = None
        ctx = contextvars.copy_context()
        self.t = threading.Thread(target=lambda: ctx.run(self.main), daemon=True)
        self.t.start()

    def main(self):
        self.go.acquire()
        self.s.local.thread = self
        try:
            res = (True, self.fn())
        except BaseException as e:
            res = (False, e)
        self.done = True
        self.s.finish(self, res)
        self.s.back.release()

    def point(self):
        self.s.back.release()
        self.go.acquire()

    def step(self):
        self.go.release()
        if not self.s.back.acquire(timeout=30):
            raise Deadlock("worker thread made no progress")


class Loop(asyncio.SelectorEventLoop):
    sched = None

    def call_soon(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self, context)
        self.sched.add(h)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(0, callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        h = asyncio.TimerHandle(when, callback, args, self, context)
        self.sched.timers.append(h)
        return h

    def _timer_handle_cancelled(self, h):
        pass

    def time(self):
        return 0.0

    def run_in_executor(self, executor, func, *args):
        return self.sched.thread(lambda: func(*args))


class Sched:
    def __init__(self):
        self.local = threading.local()
        self.back = threading.Semaphore(0)
        self.loop = Loop()
        self.loop.sched = self
        self.reset([])

    def reset(self, prefix):
        self.q = collections.OrderedDict()
        self.timers = []
        self.threads = []
        self.prefix = prefix
        self.choices = []
        self.points = []          # (number enabled, running still enabled)
        self.cur = None
        self.inloop = False
        self.started = []         # real-time order events
        self.quiet = False

    # -- hooks called from the application side
    def add(self, h):
        rid = h._context.get(RID)
        self.q.setdefault(rid, collections.deque()).append(h)

    def thread(self, fn):
        fut = self.loop.create_future()
        rid = RID.get()
        self.threads.append(CThread(self, rid, fn, fut))
        return fut

    def finish(self, th, res):
        ok, v = res
        def setres():
            if not th.fut.cancelled():
                if ok:
                    th.fut.set_result(v)
                else:
                    th.fut.set_exception(v)
        ctx = contextvars.copy_context()
        ctx.run(RID.set, th.rid)
        self.add(asyncio.Handle(setres, (), self.loop, ctx))

    def primitive(self, kind, path, mutates=True):
        """Before each file-system primitive."""
        if self.quiet:
            return
        th = getattr(self.local, "thread", None)
        if th is not None and not th.done:
            th.point()
            return
        if not self.inloop:
            return
        while True:
            en = [t for t in self.threads if not t.done]
            if not en:
                return
            c = self.choose(1 + len(en), True)
            if c == 0:
                return
            en[c - 1].step()

    # -- the explorer's side
    def choose(self, n, still):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Diverged(f"choice {c} of {n} at point {i}")
        self.choices.append(c)
        self.points.append((n, still))
        return c

    def run(self, coros, prefix):
        """Run {rid: coroutine} to completion under the choice prefix."""
        self.reset(prefix)
        asyncio.events._set_running_loop(self.loop)
        try:
            tasks = {}
            for rid, co in coros.items():
                ctx = contextvars.copy_context()
                ctx.run(RID.set, rid)
                tasks[rid] = self.loop.create_task(co, context=ctx)
            while True:
                en = []
                for rid in sorted((r for r in self.q if self.q[r]), key=str):
                    en.append(("L", rid))
                for t in self.threads:
                    if not t.done:
                        en.append(("T", t))
                if not en:
                    live = [h for h in self.timers if not h._cancelled]
                    self.timers = []
                    if live and not all(t.done() for t in tasks.values()):
                        for h in live:
                            self.add(h)
                        continue
                    break
                mine = [e for e in en if (e[1] if e[0] == "L" else e[1].rid) == self.cur]
                rest = [e for e in en if e not in mine]
                en = mine + rest
                c = self.choose(len(en), bool(mine)) if len(en) > 1 else 0
                kind, x = en[c]
                if kind == "L":
                    self.cur = x
                    h = self.q[x].popleft()
                    if not h._cancelled:
                        self.inloop = True
                        try:
                            h._run()
                        finally:
                            self.inloop = False
                else:
                    self.cur = x.rid
                    x.step()
            out = {}
            for rid, t in tasks.items():
                if not t.done():
                    raise Deadlock(f"request {rid} never finishes")
                out[rid] = t.result()
            return out
        finally:
            asyncio.events._set_running_loop(None)
            for t in self.threads:          # never leave a paused thread behind
                while not t.done:
                    self.quiet = True
                    t.step()

    def preemptions(self, upto):
        """Deviations from 'keep running the current entity' among the first choices."""
        return sum(1 for i in range(upto) if self.choices[i] and self.points[i][1])


def explore(sched, make, check, bound, on_exec=None):
    """Every execution of make() with at most `bound` preemptions; check(result) for each."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        res = sched.run(make(), prefix)
        n += 1
        choices, points = list(sched.choices), list(sched.points)
        if choices[:len(prefix)] != prefix:
            raise Diverged("replay diverged")
        check(res, choices)
        cost = 0
        for i in range(len(choices)):
            if i >= len(prefix):
                k, still = points[i]
                if cost + (1 if still else 0) <= bound:
                    for alt in range(1, k):
                        stack.append(choices[:i] + [alt])
            if choices[i] and points[i][1]:
                cost += 1
    return n
