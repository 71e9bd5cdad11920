"""Containment for checks that exercise path handling: unprivileged user + a file system that only
records calls outside the jail."""
import os
import fsspec
from fsspec.implementations.local import LocalFileSystem

SCRATCH = os.environ.get("VERIF_SCRATCH") or "/tmp"


def drop_privileges(path):
    """Become nobody in this (worker) process; path and its parents must be searchable."""
    if os.geteuid() == 0:
        os.chown(path, 65534, 65534)
        p = os.path.dirname(os.path.abspath(path))
        while len(p) > len("/tmp"):
            try:
                os.chmod(p, os.stat(p).st_mode | 0o055)
            except OSError:
                pass
            p = os.path.dirname(p)
        os.setgroups([])
        os.setresgid(65534, 65534, 65534)
        os.setresuid(65534, 65534, 65534)


class Escape(Exception):
    pass


class JailFS(LocalFileSystem):
    """Local files, but any path outside `root` is recorded and refused."""
    protocol = "jail"
    cachable = False
    root = None
    escapes = []

    @classmethod
    def _strip_protocol(cls, path):
        path = str(path)
        if path.startswith("jail://"):
            path = path[len("jail://"):]
        return super()._strip_protocol(path)

    def _g(self, path):
        p = os.path.realpath(self._strip_protocol(path))
        if JailFS.root and not (p == JailFS.root or p.startswith(JailFS.root + "/")):
            JailFS.escapes.append(str(path))
            raise Escape(f"path outside the storage root: {path}")
        return path

    def _url(self, p):
        return p

    def mkdir(self, path, create_parents=True, **kw):
        return super().mkdir(self._g(path), create_parents, **kw)

    def makedirs(self, path, exist_ok=False):
        return super().makedirs(self._g(path), exist_ok)

    def rmdir(self, path):
        return super().rmdir(self._g(path))

    def ls(self, path, detail=False, **kw):
        return super().ls(self._g(path), detail, **kw)

    def info(self, path, **kw):
        if not isinstance(path, os.DirEntry):
            self._g(path)
        return super().info(path, **kw)

    def cp_file(self, a, b, **kw):
        return super().cp_file(self._g(a), self._g(b), **kw)

    def mv_file(self, a, b, **kw):
        return super().mv_file(self._g(a), self._g(b), **kw)

    def rm_file(self, path):
        return super().rm_file(self._g(path))

    def rm(self, path, recursive=False, maxdepth=None):
        for p in path if isinstance(path, list) else [path]:
            self._g(p)
        return super().rm(path, recursive, maxdepth)

    def _open(self, path, mode="rb", block_size=None, **kw):
        return super()._open(self._g(path), mode, block_size, **kw)

    def touch(self, path, truncate=True, **kw):
        return super().touch(self._g(path), truncate, **kw)

    def link(self, a, b, **kw):
        return super().link(self._g(a), self._g(b), **kw)

    def symlink(self, a, b, **kw):
        return super().symlink(self._g(a), self._g(b), **kw)


fsspec.register_implementation("jail", JailFS, clobber=True)
