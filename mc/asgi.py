"""Drives the real ASGI application directly (no server, no network)."""
import asyncio
from urllib.parse import unquote

_loop = None


def loop():
    global _loop
    if _loop is None:
        _loop = asyncio.new_event_loop()
    return _loop


def scope(method, raw, headers):
    path, _, query = raw.partition("?")
    return dict(type="http", asgi={"version": "3.0", "spec_version": "2.3"}, http_version="1.1",
                method=method, scheme="http", path=unquote(path), raw_path=path.encode(),
                query_string=query.encode(), root_path="", headers=headers,
                client=("testclient", 1), server=("testserver", 80), state={}, extensions={})


class Response:
    def __init__(self):
        self.status, self.headers, self.body, self.exc = None, {}, b"", None

    def json(self):
        import json
        return json.loads(self.body)

    def brief(self):
        return (self.status, self.body[:300], repr(self.exc)[:300] if self.exc else None)


async def arequest(app, method, path, body=b"", ctype=None, chunks=None, headers=None):
    """One request; a raised exception is what a server turns into a 500."""
    hs = [(b"host", b"testserver")]
    if ctype is not None:
        hs.append((b"content-type", ctype.encode()))
    hs += headers or []
    parts = list(chunks) if chunks is not None else [body]
    r = Response()

    async def receive():
        if parts:
            b = parts.pop(0)
            return {"type": "http.request", "body": b, "more_body": bool(parts)}
        return {"type": "http.disconnect"}

    async def send(m):
        if m["type"] == "http.response.start":
            r.status = m["status"]
            r.headers = {k.decode().lower(): v.decode() for k, v in m["headers"]}
        elif m["type"] == "http.response.body":
            r.body += m.get("body", b"")

    try:
        await app(scope(method, path, hs), receive, send)
    except Exception as e:
        r.exc = e
        r.status = 500
    return r


def request(app, method, path, **kw):
    return loop().run_until_complete(arequest(app, method, path, **kw))
