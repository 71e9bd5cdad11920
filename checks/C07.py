"""Registry names: injective, contained, listed verbatim."""
import itertools, json, os, shutil
from mc import terms as M
from mc.engine import observe
from mc import jail
import recap.types as rt
from recap.storage.registry import RegistryStorage

PID = "C07"
RULE = ("every name up to the length bound over path- and quoting-significant characters plus a list of traversal and "
        "quoting look-alikes, stored alone; every pair of short names stored together (both orders by symmetry of the checks); "
        "all reads and listings compared, the directory tree outside the root compared before and after, and every file "
        "system call outside the root recorded")
ASSUMPTIONS = ["names are non-empty, valid Unicode and short enough for the file system once quoted"]
ALPHA = ["a", ".", "/", "%", "+", " ", "\\", "~", "é", "\x00", ":", "?", "*", "#", "A", "\n"]
SPECIAL = ["..", "../x", "../../x", "../../../x", "a/../b", "a/../../b", "%2E", "%2E%2E", "%2e%2e", "%2F", "%2f", "%252F", "%2B", "%20",
           "1.json", "2.json", "1", ".1.tmp", ".hidden", "...", "....", "./a", "a/.", "a/..", "/etc/x", "//x", "~root", "$HOME", "a;b",
           "schema,v1", "com.acme.Foo", "x" * 80, "ünï/cødé", "日本", "a&b=c", "root", "n/1", "n/1.json", "%25", "%", "%%", "+", "a+b",
           "a b", "a%20b", "a%2Bb", "a%2Fb", "a/b", "A/B", "a//b", "a/b/", "/a/b", "-", "--", "null", "None", "versions", "\t", "\r\n", "😀"]


def BOUNDS(tier):
    return {"alphabet": len(ALPHA), "max_length_single": 3, "pair_length": 2 if tier == "thorough" else "2 over 9 chars + specials",
            "specials": len(SPECIAL)}


def names(n, alpha=ALPHA):
    for l in range(1, n + 1):
        for c in itertools.product(alpha, repeat=l):
            yield "".join(c)


def pair_names(tier):
    s = list(names(2, ALPHA if tier == "thorough" else ["a", ".", "/", "%", "+", " ", "A"])) + SPECIAL
    return list(dict.fromkeys(s))


def cases(tier):
    for n in list(names(3)) + SPECIAL:
        yield {"one": n}
    ps = pair_names(tier)
    for i, a in enumerate(ps):
        yield {"a": a, "others": ps[i + 1:]}


T1 = {"k": "int", "bits": 24}
T2 = {"k": "string", "bytes": 7}


def start_worker(ctx):
    base = f"{jail.SCRATCH}/c07-{os.getpid()}"
    os.makedirs(base)
    jail.drop_privileges(base)
    ctx.base = base
    ctx.n = 0


def stop_worker(ctx):
    shutil.rmtree(ctx.base, ignore_errors=True)


def tree(path, skip):
    out = []
    for d, ds, fs in os.walk(path):
        if d == skip:
            ds[:] = []
            continue
        for x in ds + fs:
            out.append(os.path.relpath(os.path.join(d, x), path))
    return sorted(out)


def fresh(ctx):
    ctx.n += 1
    top = f"{ctx.base}/t{ctx.n}"
    root = f"{top}/1/2/3/root"
    os.makedirs(root)
    os.makedirs(f"{top}/1/2/3/root2")     # sibling whose name the root's is a prefix of
    open(f"{top}/1/2/3/1.json", "w").write("{}")
    jail.JailFS.root = root
    jail.JailFS.escapes = []
    st = RegistryStorage("jail://" + root)
    return top, root, st, tree(top, root)


def same(g, t, v):
    return g[0] == "ok" and g[1] is not None and g[1][1] == v and M.snap(g[1][0], True) == M.term_snap(t, True)


def run_case(case, ctx):
    if "one" in case:
        one(case["one"], ctx)
    else:
        pairs(case["a"], case["others"], ctx)


def one(n, ctx):
    top, root, st, before = fresh(ctx)
    key = json.dumps(n)
    try:
        def chk(what, ok, info):
            ctx.count(transitions=1)
            if not ok:
                ctx.fail(f"{what}:{key}", f"name {n!r}: {what}: {info}")
        b = lambda t: M.build(t, rt.RecapTypeRegistry())
        g = observe(st.get, n); chk("absent before", g == ("ok", None), g)
        g = observe(st.versions, n); chk("no versions before", g[0] == "ok" and not g[1], g)
        g = observe(st.ls); chk("nothing listed before", g == ("ok", []), g)
        g = observe(st.put, n, b(T1)); chk("put", g == ("ok", 1), g)
        g = observe(st.put, n, b(T2)); chk("put again", g == ("ok", 2), g)
        g = observe(st.put, n, b(T1), 7); chk("put version", g == ("ok", 7), g)
        g = observe(st.ls); chk("listed verbatim", g == ("ok", [n]), g)
        g = observe(st.versions, n); chk("versions", g == ("ok", [1, 2, 7]), g)
        g = observe(st.get, n); chk("latest", same(g, T1, 7), g)
        g = observe(st.get, n, 2); chk("get 2", same(g, T2, 2), g)
        g = observe(st.get, n, 3); chk("get 3", g == ("ok", None), g)
        esc = list(jail.JailFS.escapes)
        chk("stays inside the root", not esc, esc)
        chk("nothing changed outside", tree(top, root) == before, tree(top, root))
        ctx.count(states=1, traces=1)
        ctx.outcome("single")
    finally:
        shutil.rmtree(top, ignore_errors=True)


def pairs(a, others, ctx):
    if not others:
        return
    top, root, st, before = fresh(ctx)
    try:
        b = lambda t: M.build(t, rt.RecapTypeRegistry())
        st.put(a, b(T1))
        key = json.dumps(a)
        stored = [a]
        for o in others:
            k2 = key + "," + json.dumps(o)
            g = observe(st.get, o)
            ctx.count(transitions=1)
            if g != ("ok", None):
                ctx.fail("shared:" + k2, f"{o!r} reads {g} although only {stored[:3]}.. were stored")
                continue
            g = observe(st.put, o, b(T2))
            ctx.count(transitions=1)
            if g != ("ok", 1):
                ctx.fail("shared put:" + k2, f"put {o!r} gave {g}")
            stored.append(o)
            g = observe(st.get, a)
            ctx.count(transitions=1)
            if not same(g, T1, 1):
                ctx.fail("clobbered:" + k2, f"after storing {o!r}, {a!r} reads {g}")
                return
            g = observe(st.get, o)
            if not same(g, T2, 1):
                ctx.fail("lost:" + k2, f"{o!r} reads {g}")
            g = observe(st.versions, a)
            if g != ("ok", [1]):
                ctx.fail("versions:" + k2, f"{a!r} has versions {g}")
            ctx.count(states=1, traces=1)
        g = observe(st.ls)
        if g != ("ok", sorted(stored)):
            ctx.fail("ls:" + key, f"listing differs: missing {set(stored) - set(g[1] if g[0] == 'ok' else [])} "
                                  f"extra {set(g[1] if g[0] == 'ok' else []) - set(stored)}")
        if jail.JailFS.escapes:
            ctx.fail("escape:" + key, f"{jail.JailFS.escapes[:5]}")
        if tree(top, root) != before:
            ctx.fail("outside:" + key, "tree outside root changed")
        ctx.outcome("pairs", len(others))
    finally:
        shutil.rmtree(top, ignore_errors=True)
