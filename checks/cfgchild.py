"""A fresh process of Recap (a fork of one that hasn't imported it) for C32."""
import asyncio, importlib, json, os, pickle, sys, traceback


def imports():
    """Everything but Recap, so that the forks are quick."""
    import dotenv, fastapi.testclient, fsspec, pydantic_settings, rich, typer, typer.testing, uuid, requests, urllib3
    import fsspec.implementations.local, fsspec.implementations.memory
    assert not any(m == "recap" or m.startswith("recap.") for m in sys.modules)


def child(d, env, run, urls, roots):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = {}
            try:
                inside(out, d, env, run, urls, roots)
            except BaseException:
                out["crash"] = traceback.format_exc()[-1500:]
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return {"args": None} | pickle.loads(data)


def obs(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("err", type(e).__name__, str(e)[:300])


def inside(out, d, env, run, urls, roots):
    for k in list(os.environ):
        if k.upper().startswith("RECAP"):
            del os.environ[k]
    os.environ.update(env)
    os.chdir(d + "/cwd/in")
    sys.path.insert(0, d + "/p")
    import fsspec
    from fsspec.implementations.local import LocalFileSystem
    seen = []

    class Rec(LocalFileSystem):
        protocol = "rec"
        cachable = False

        def __init__(self, **k):
            seen.append(k)
            super().__init__()

        @classmethod
        def _strip_protocol(cls, p):
            return LocalFileSystem._strip_protocol(str(p).removeprefix("rec://"))
    fsspec.register_implementation("rec", Rec)
    commands = importlib.import_module("recap.commands")
    out["ls"] = obs(commands.ls)
    clients = importlib.import_module("recap.clients")

    def connect(url, root):
        method = "ls"
        got, _ = clients.parse_url(method, root)
        user = url.partition("@")[0] if "@" in url else None
        return user is None or got.startswith(user + "@")
    out["connect"] = [obs(lambda: connect(u, s)) for u, s in zip(urls, roots)]
    out["other"] = obs(lambda: clients.parse_url("ls", "postgresql://elsewhere/db"))
    app = importlib.import_module("recap.server.app").app
    from fastapi.testclient import TestClient
    http = TestClient(app, base_url="http://localhost")

    def get(path):
        r = http.get(path)
        assert r.status_code == 200, r.text
        return r.json()
    out["http ls"] = obs(lambda: get("/gateway/ls/"))
    from typer.testing import CliRunner

    def cli():
        r = CliRunner().invoke(importlib.import_module("recap.cli").app, ["ls"])
        if r.exit_code:
            raise r.exception
        return json.loads(r.stdout) if r.stdout.strip() else None
    out["cli ls"] = obs(cli)
    out["registry before"] = obs(lambda: get("/registry/"))
    out["args"] = ("ok", seen[-1]) if seen else None

    def put():
        r = http.post("/registry/n", content=json.dumps({"type": "struct", "fields": [], "doc": f"v{run}"}), headers={"content-type": "application/x-recap+json"})
        assert r.status_code == 200, r.text
        return r.json()
    out["put"] = obs(put)
    out["registry after"] = obs(lambda: get("/registry/"))

    def read():
        for v in range(1, run + 1):
            t, n = get(f"/registry/n/versions/{v}")
            assert (t["doc"], n) == (f"v{v}", v), (t, n)
        return get("/registry/n")[1]
    out["read"] = obs(read)
