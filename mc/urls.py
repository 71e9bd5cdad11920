"""Reference model of configured roots and request URLs, built from parts (never by parsing)."""
import itertools
from urllib.parse import urlsplit, parse_qs, unquote

SECRETS = ["Usr7", "S3cr"]


def compose(p):
    """p: dict scheme, user (None or raw userinfo), host, port, path, query (list of pairs), frag"""
    u = p["scheme"] + "://"
    if p.get("user") is not None:
        u += p["user"] + "@"
    u += p.get("host", "")
    if p.get("port"):
        u += f":{p['port']}"
    u += p.get("path", "")
    if p.get("query"):
        u += "?" + "&".join(f"{k}={v}" for k, v in p["query"])
    if p.get("frag"):
        u += "#" + p["frag"]
    return u


def parts(url):
    """Canonical, order-insensitive reading of a URL, to compare what code produced."""
    s = urlsplit(url)
    ui, at, hp = s.netloc.rpartition("@")
    return {"scheme": s.scheme, "user": unquote(ui) if at else None, "hostport": hp.lower(),
            "path": s.path.rstrip("/"), "query": {k: v for k, v in parse_qs(s.query).items()}, "frag": s.fragment,
            "slashes": url[len(s.scheme):len(s.scheme) + 3] == "://"}


def expect(p, user=None, query=None, frag=None, path=None):
    q = {}
    for k, v in (p.get("query") or []) if query is None else query:
        q.setdefault(k, []).append(unquote(v))
    return {"scheme": p["scheme"], "user": unquote(user) if user is not None else None,
            "hostport": (p.get("host", "") + (f":{p['port']}" if p.get("port") else "")).lower(),
            "path": (p.get("path", "") if path is None else path).rstrip("/"), "query": q,
            "frag": (p.get("frag") or "") if frag is None else frag, "slashes": True}


def comps(path):
    """Path components after resolving '.', '..' and repeated slashes; a leading '//' (sqlite's
    absolute path) is a component of its own."""
    out = []
    lead = path.startswith("//") and not path.startswith("///")
    for c in path.split("/"):
        if c in ("", "."):
            continue
        if c == "..":
            if out:
                out.pop()
            continue
        out.append(c)
    return lead, out


def under(req, conf):
    """Components are compared after decoding each of them."""
    lr, r = comps(req)
    lc, c = comps(conf)
    r, c = [unquote(x) for x in r], [unquote(x) for x in c]
    if not c and not lc:
        return True
    return lr == lc and r[:len(c)] == c
