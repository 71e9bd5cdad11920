"""Configuration: all ways of giving each setting, alone and together, in fresh processes."""
import itertools, json, os, shutil, sys
import importlib.util
from checks import cfgchild as K
from mc.jail import SCRATCH

PID = "C32"
RULE = ("every subset of {environment, .env file, secrets directory} for the URLs, for the registry's storage URL and for its arguments (each source with its own value), with every way of "
        "giving the home and the secrets directory; every list of up to three URLs; every spelling and nesting of storage arguments; home directories by kind of path. Each configuration is "
        "started twice in fresh processes: all parts must use the expected values, and the second process must find what the first stored")
ASSUMPTIONS = ["a variable that is set in two spellings, or set but empty in the environment and given in .env, is not judged", ".env lies in a directory above the package (as python-dotenv finds it)"]
CASE_TIMEOUT = 120
DYNAMIC = True

URL = {"env": ("postgresql://u:pw1@h:5432/db", "postgresql://h:5432/db"), "dot": ("mysql://v:pw2@g:3306", "mysql://g:3306"), "secret": ("snowflake://w:pw3@f/d", "snowflake://f/d")}
LISTS = [("postgresql://u:pw1@h/db", "postgresql://h/db"), ("postgresql://x:pw4@h2/db", "postgresql://h2/db"), ("mysql://g", "mysql://g"), ("bigquery://", "bigquery://"), ("file:///", "file://"), ("http+csr://a:b@r:8081", "http+csr://r:8081"), ("sqlite:////x/y.db", "sqlite:////x/y.db")]
SUB = [c for r in range(4) for c in itertools.combinations(("env", "dot", "secret"), r)]
RANK = ("env", "dot", "secret")


def BOUNDS(tier):
    return {"sources": list(RANK), "subsets": len(SUB), "home": len(HOMES), "secrets directory": len(SECRETS), "urls in a list": 3, "argument spellings": len(ARGS)}


HOMES = ["unset", "env", "dot", "both", "empty"]
SECRETS = ["unset", "env", "dot", "both", "empty"]
PATHS = ["plain", "exists", "a b", "ü", "x%20y", "q?z", "h#z", "a+b", "deep/er", "relative", "../up", "trailing/", "with data"]
# (environment, JSON of the variable, expected)
ARGS = [({}, None, {}),
        ({}, {"token": "t"}, {"token": "t"}),
        ({"RECAP_REGISTRY_STORAGE_URL_ARGS__TOKEN": "t"}, None, {"token": "t"}),
        ({"RECAP_REGISTRY_STORAGE_URL_ARGS__token": "T 1"}, None, {"token": "T 1"}),
        ({"recap_registry_storage_url_args__token": "t"}, None, {"token": "t"}),
        ({"RECAP_REGISTRY_STORAGE_URL_ARGS__CLIENT_KWARGS__ENDPOINT_URL": "http://m:9000"}, None, {"client_kwargs": {"endpoint_url": "http://m:9000"}}),
        ({"RECAP_REGISTRY_STORAGE_URL_ARGS__KEY": "k"}, {"token": "t"}, {"token": "t", "key": "k"}),
        ({"RECAP_REGISTRY_STORAGE_URL_ARGS__TOKEN": "n"}, {"token": "t"}, {"token": "n"}),
        ({"RECAP_REGISTRY_STORAGE_URL_ARGS__KEY": "k", "RECAP_REGISTRY_STORAGE_URL_ARGS__SECRET": "s"}, None, {"key": "k", "secret": "s"}),
        ({}, {"client_kwargs": {"endpoint_url": "x", "Mixed": [1, None, True]}}, {"client_kwargs": {"endpoint_url": "x", "Mixed": [1, None, True]}})]


def cases(tier):
    for home in HOMES:
        for sec in SECRETS:
            for urls in SUB:
                for stores in SUB:
                    if "secret" in urls + stores and sec in ("unset", "empty"):
                        continue
                    if tier == "quick" and urls != stores and (home, sec) not in (("unset", "env"), ("env", "env"), ("dot", "dot"), ("unset", "dot"), ("both", "both")):
                        continue
                    yield {"home": home, "secrets": sec, "urls": urls, "stores": stores}
    for n in range(4):
        for l in itertools.permutations(range(len(LISTS)), n):
            for where in RANK if n < 3 or tier != "quick" else ("env",):
                yield {"list": l, "where": where}
    for i in range(len(ARGS)):
        for where in RANK if ARGS[i][1] is not None else ("env",):
            for nested in ("env", "dot"):
                yield {"args": i, "where": where, "nested": nested}
    for name in ("RECAP_URLS", "recap_urls", "Recap_Urls"):
        for where in RANK:
            yield {"spelling": name, "where": where}
    for p in PATHS:
        for how in ("env", "dot", "HOME", "secrets", "secrets dot"):
            yield {"path": p, "how": how}


def start_worker(ctx):
    K.imports()


class Config:
    def __init__(self):
        self.d = os.path.join(SCRATCH, f"c32-{os.getpid()}")
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d + "/p")
        os.makedirs(self.d + "/user")
        os.makedirs(self.d + "/cwd/in")
        src = [p for p in importlib.util.find_spec("recap").submodule_search_locations if os.path.exists(p + "/settings.py")][0]
        os.symlink(src, self.d + "/p/recap")
        self.env, self.dot, self.secret = {"HOME": self.d + "/user"}, {}, {}
        self.secrets_dir = None
        self.home = self.d + "/user/.recap"
        self.urls, self.store, self.args = [], None, {}

    def put(self, where, name, value):
        {"env": self.env, "dot": self.dot, "secret": self.secret}[where][name] = value

    def write(self):
        if self.dot:
            with open(self.d + "/p/.env", "w") as f:
                f.writelines(f"{k}='{v}'\n" for k, v in self.dot.items())
        if self.secret:
            os.makedirs(self.secrets_dir, exist_ok=True)
            for k, v in self.secret.items():
                with open(f"{self.secrets_dir}/{k}", "w") as f:
                    f.write(v + "\n")

    def home_by(self, how):
        a, b = self.d + "/ha", self.d + "/hb"
        if how in ("env", "both"):
            self.env["RECAP_HOME"] = a
            self.home = a
        if how in ("dot", "both"):
            self.dot["RECAP_HOME"] = b
            self.home = a if how == "both" else b
        if how == "empty":
            self.env["RECAP_HOME"] = ""

    def secrets_by(self, how):
        a, b = self.d + "/sa", self.d + "/sb"
        if how in ("env", "both"):
            self.env["RECAP_SECRETS"] = a
            self.secrets_dir = a
        if how in ("dot", "both"):
            self.dot["RECAP_SECRETS"] = b
            self.secrets_dir = a if how == "both" else b
        if how == "both":                    # the other one isn't read
            os.makedirs(b)
            with open(b + "/recap_urls", "w") as f:
                f.write('["mysql://wrong"]')
        if how == "empty":
            self.env["RECAP_SECRETS"] = ""


def run_case(case, ctx):
    c = Config()
    try:
        judge(c, case, ctx)
    finally:
        shutil.rmtree(c.d, ignore_errors=True)


def judge(c, case, ctx):
    key = next(iter(case))
    if key == "home":
        c.home_by(case["home"])
        c.secrets_by(case["secrets"])
        for w in case["urls"]:
            c.put(w, "recap_urls" if w == "secret" else "RECAP_URLS", json.dumps([URL[w][0]]))
        for w in case["stores"]:
            c.put(w, "recap_registry_storage_url" if w == "secret" else "RECAP_REGISTRY_STORAGE_URL", f"file://{c.d}/store-{w}")
        c.urls = [URL[w] for w in RANK if w in case["urls"]][:1]
        c.store = next((f"{c.d}/store-{w}" for w in RANK if w in case["stores"]), None)
    elif key == "list":
        w = case["where"]
        if w == "secret":
            c.secrets_by("env")
        c.put(w, "recap_urls" if w == "secret" else "RECAP_URLS", json.dumps([LISTS[i][0] for i in case["list"]]))
        c.urls = [LISTS[i] for i in case["list"]]
    elif key == "args":
        env, js, c.args = ARGS[case["args"]]
        w = case["where"]
        if w == "secret":
            c.secrets_by("env")
        if case["nested"] == "dot" and any(k.islower() for k in env):
            return
        for k, v in env.items():
            c.put(case["nested"], k, v)
        if js is not None:
            c.put(w, "recap_registry_storage_url_args" if w == "secret" else "RECAP_REGISTRY_STORAGE_URL_ARGS", json.dumps(js))
        c.env["RECAP_REGISTRY_STORAGE_URL"] = f"rec://{c.d}/store-env"
        c.store = f"{c.d}/store-env"
    elif key == "spelling":
        w = case["where"]
        if w == "secret":
            c.secrets_by("env")
        c.put(w, case["spelling"], json.dumps([URL[w][0]]))
        c.urls = [URL[w]]
    elif key == "path":
        p, how = case["path"], case["how"]
        path = {"relative": "rel", "../up": "../up", "exists": c.d + "/exists", "with data": c.d + "/data", "trailing/": c.d + "/trailing/"}.get(p) or f"{c.d}/{p}"
        full = os.path.normpath(os.path.join(c.d + "/cwd/in", path))
        if p in ("exists", "with data"):
            os.makedirs(full)
        if how == "HOME":
            if p in ("relative", "../up"):
                return
            os.makedirs(full, exist_ok=True)
            c.env["HOME"] = path
            c.home = full + "/.recap"
        elif how.startswith("secrets"):
            c.put("dot" if "dot" in how else "env", "RECAP_SECRETS", path)
            if p == "with data":
                c.secrets_dir = full
                c.secret["recap_urls"] = json.dumps([URL["secret"][0]])
                c.urls = [URL["secret"]]
        else:
            c.put(how, "RECAP_HOME", path)
            c.home = full
        if p == "with data" and not how.startswith("secrets"):
            os.makedirs(c.home + "/schemas/old")
            with open(c.home + "/schemas/old/3.json", "w") as f:
                f.write('{"type": "int", "bits": 8}')
    c.write()
    store = c.store or c.home + "/schemas"
    old = ["old"] if case.get("path") == "with data" and not case["how"].startswith("secrets") else []
    for run in (1, 2):
        got = K.child(c.d, c.env, run, [u for u, _ in c.urls], [s for _, s in c.urls])
        ctx.count(states=1, traces=1, transitions=len(got))
        want = {"ls": ("ok", [s for _, s in c.urls]), "http ls": ("ok", [s for _, s in c.urls]), "cli ls": ("ok", [s for _, s in c.urls] or None),
                "connect": [("ok", True)] * len(c.urls), "other": ("err", "ValueError"),
                "args": ("ok", c.args), "registry before": ("ok", sorted(old + (["n"] if run == 2 else []))),
                "put": ("ok", run), "registry after": ("ok", sorted(old + ["n"])), "read": ("ok", run),
                "files": sorted([f"n/{i}.json" for i in range(1, run + 1)] + [f"{o}/3.json" for o in old])}
        got["files"] = sorted(os.path.relpath(os.path.join(b, f), store) for b, _, fs in os.walk(store) for f in fs)
        if case.get("args") is None:
            del want["args"], got["args"]
        for k in want:
            ctx.outcome(k)
            if (got[k][:2] if isinstance(got.get(k), tuple) else got.get(k, "missing")) != want[k]:
                ctx.fail(f"{key}:{k}", f"{case} run {run}: {k} is {got.get(k)}, want {want[k]}\nenvironment {c.env}\n.env {c.dot}\nsecrets {c.secret}\nchild {got.get('crash')}")
                return
