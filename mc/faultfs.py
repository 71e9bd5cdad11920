"""An in-memory fsspec file system whose every primitive step is a crash point / fault point /
scheduling point.  State: dirs (set), files (path -> bytes).  Renames are atomic, file data reaches
the 'disk' byte by byte."""
import io, errno
import fsspec
from fsspec.spec import AbstractFileSystem


class Crash(BaseException):
    """The process dies here."""


class Disk:
    def __init__(self):
        self.dirs = {"/"}
        self.files = {}
        self.hook = None      # hook(kind, path) called before each primitive
        self.log = []         # primitives executed
        self.dead = False

    def step(self, kind, path, mutates=True):
        if self.dead:
            raise Crash()
        if self.hook:
            self.hook(kind, path, mutates)

    def snapshot(self):
        return (frozenset(self.dirs), tuple(sorted(self.files.items())))

    def clone(self):
        d = Disk()
        d.dirs = set(self.dirs)
        d.files = dict(self.files)
        return d


class _File(io.BytesIO):
    def __init__(self, fs, path, mode, disk, data=b""):
        super().__init__(data if "w" not in mode else b"")
        self._fs, self._path, self._m, self._disk = fs, path, mode, disk
        self._pushed = 0
        self.tmp = None
        if "a" in mode:
            self.seek(0, 2)
            self._pushed = len(data)

    def _push(self):
        if self._disk.dead:
            raise Crash()
        data = self.getvalue()
        p = self.tmp or self._path
        cur = self._disk.files.get(p)
        if cur is None:
            cur = b""
        if data[:len(cur)] == cur:
            for i in range(len(cur), len(data)):
                self._disk.step("write", p)
                if p not in self._disk.files:
                    return
                self._disk.files[p] = data[:i + 1]
        elif data != cur:
            self._disk.step("write", p)
            self._disk.files[p] = data

    def flush(self):
        if not self.closed and self._m != "rb":
            self._push()

    def close(self):
        if not self.closed:
            try:
                if self._m != "rb":
                    self._push()
            finally:
                super().close()

    def commit(self):
        if self.tmp:
            self._disk.step("rename", self._path)
            self._disk.files[self._path] = self._disk.files.pop(self.tmp)

    def discard(self):
        if self.tmp:
            self._disk.step("remove", self.tmp)
            self._disk.files.pop(self.tmp, None)

    def __exit__(self, *a):
        self.close()


class FaultFS(AbstractFileSystem):
    protocol = "fault"
    cachable = False
    disk = Disk()
    async_impl = False

    @classmethod
    def _strip_protocol(cls, path):
        path = str(path)
        if path.startswith("fault://"):
            path = path[len("fault://"):]
        path = "/" + path.strip("/")
        parts = []
        for p in path.split("/"):
            if p in ("", "."):
                continue
            if p == "..":
                if parts:
                    parts.pop()
                continue
            parts.append(p)
        return "/" + "/".join(parts)

    @property
    def d(self):
        return FaultFS.disk

    def _parentdir(self, p):
        return p.rsplit("/", 1)[0] or "/"

    def mkdir(self, path, create_parents=True, **kw):
        p = self._strip_protocol(path)
        if p in self.d.dirs or p in self.d.files:
            raise FileExistsError(p)
        if create_parents:
            self.makedirs(p)
        else:
            if self._parentdir(p) not in self.d.dirs:
                raise FileNotFoundError(p)
            self.d.step("mkdir", p)
            self.d.dirs.add(p)

    def makedirs(self, path, exist_ok=False):
        p = self._strip_protocol(path)
        if p in self.d.dirs:
            if not exist_ok:
                raise FileExistsError(p)
            return
        if p in self.d.files:
            raise FileExistsError(p)
        cur = ""
        for part in p.strip("/").split("/"):
            cur += "/" + part
            if cur in self.d.files:
                raise NotADirectoryError(cur)
            if cur not in self.d.dirs:
                self.d.step("mkdir", cur)
                self.d.dirs.add(cur)

    def rmdir(self, path):
        p = self._strip_protocol(path)
        if p not in self.d.dirs:
            raise FileNotFoundError(p)
        if any(self._parentdir(x) == p for x in list(self.d.dirs) + list(self.d.files) if x != p):
            raise OSError(errno.ENOTEMPTY, "not empty", p)
        self.d.step("rmdir", p)
        self.d.dirs.discard(p)

    def ls(self, path, detail=True, **kw):
        p = self._strip_protocol(path)
        self.d.step("ls", p, False)
        if p in self.d.files:
            out = [self._info(p)]
        elif p in self.d.dirs:
            out = [self._info(x) for x in sorted(list(self.d.dirs) + list(self.d.files))
                   if x != p and self._parentdir(x) == p]
        else:
            raise FileNotFoundError(p)
        return out if detail else [o["name"] for o in out]

    def _info(self, p):
        if p in self.d.files:
            return {"name": p, "size": len(self.d.files[p]), "type": "file"}
        if p in self.d.dirs:
            return {"name": p, "size": 0, "type": "directory"}
        raise FileNotFoundError(p)

    def info(self, path, **kw):
        p = self._strip_protocol(path)
        self.d.step("info", p, False)
        return self._info(p)

    def exists(self, path, **kw):
        try:
            self.info(path)
            return True
        except FileNotFoundError:
            return False

    def _open(self, path, mode="rb", block_size=None, autocommit=True, cache_options=None, **kw):
        p = self._strip_protocol(path)
        if p in self.d.dirs:
            raise IsADirectoryError(p)
        m = mode.replace("t", "")
        if "b" not in m:
            m += "b"
        if m == "rb":
            self.d.step("open", p, False)
            if p not in self.d.files:
                raise FileNotFoundError(p)
            return _File(self, p, "rb", self.d, self.d.files[p])
        if self._parentdir(p) not in self.d.dirs:
            raise FileNotFoundError(p)
        if m.startswith("x"):
            self.d.step("create", p)
            if p in self.d.files:
                raise FileExistsError(p)
            self.d.files[p] = b""
            return _File(self, p, "wb", self.d)
        if not autocommit:
            tmp = f"/.fault-tmp-{len(self.d.files)}"
            self.d.step("create", tmp)
            self.d.files[tmp] = b""
            f = _File(self, p, m, self.d)
            f.tmp = tmp
            return f
        if m.startswith("w"):
            self.d.step("create", p)
            self.d.files[p] = b""
            return _File(self, p, m, self.d)
        self.d.step("create", p)
        self.d.files.setdefault(p, b"")
        return _File(self, p, m, self.d, self.d.files[p])

    def mv_file(self, a, b, **kw):
        a, b = self._strip_protocol(a), self._strip_protocol(b)
        self.d.step("rename", b)
        if a not in self.d.files:
            raise FileNotFoundError(a)
        if b in self.d.dirs:
            raise IsADirectoryError(b)
        if self._parentdir(b) not in self.d.dirs:
            raise FileNotFoundError(b)
        self.d.files[b] = self.d.files.pop(a)

    def cp_file(self, a, b, **kw):
        a, b = self._strip_protocol(a), self._strip_protocol(b)
        if a not in self.d.files:
            raise FileNotFoundError(a)
        with self._open(b, "wb") as f:
            f.write(self.d.files[a])

    def _rm(self, path):
        p = self._strip_protocol(path)
        self.d.step("remove", p)
        if p in self.d.files:
            del self.d.files[p]
        elif p in self.d.dirs:
            self.d.dirs.discard(p)
        else:
            raise FileNotFoundError(p)

    def rm_file(self, path):
        self._rm(path)

    def created(self, path):
        return None

    def modified(self, path):
        return None


fsspec.register_implementation("fault", FaultFS, clobber=True)
