"""Builds that are killed, or meet an i/o fault, at a chosen point: the build
runs in a child process in which the k-th operation that changes the file
system ends the process (before or after it takes effect) or fails."""
import builtins
import errno
import io
import json
import os
import shutil
import sys
import traceback

from vp import site

OPS = ["unlink", "remove", "rename", "replace", "symlink", "link", "mkdir", "makedirs", "rmdir", "truncate"]


class Plan:
    def __init__(self, root, k, mode, within=""):
        self.root = os.path.realpath(root) + os.sep
        self.within = within  # only what happens to files directly in this folder (with a /: anywhere in it)
        self.k = k
        self.mode = mode
        self.n = 0
        self.busy = False
        self.hit = None

    def concerns(self, path):
        try:
            p = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return False
        if self.within.endswith("/"):
            if not p.startswith(self.root + self.within):
                return False
        elif self.within and os.path.dirname(p) != self.root + self.within:
            return False
        return isinstance(p, str) and (p + os.sep).startswith(self.root)

    def around(self, real, path, args, kwargs, what):
        if self.busy or not self.concerns(path):
            return real(*args, **kwargs)
        self.n += 1
        if self.n != self.k:
            # one call into another (makedirs into mkdir) is one operation
            self.busy = what == "makedirs"
            try:
                return real(*args, **kwargs)
            finally:
                self.busy = False
        self.hit = f"{what} {os.path.abspath(path)[len(self.root):]}"
        if self.mode == "fail":
            raise OSError(errno.EIO, "Input/output error", path)
        if self.mode == "after":
            real(*args, **kwargs)
        os.write(3 if False else self.fd, json.dumps({"killed": self.hit}).encode())
        os._exit(9)

    def install(self, fd):
        self.fd = fd
        for name in OPS:
            real = getattr(os, name)

            def wrapped(*a, _real=real, _name=name, **kw):
                return self.around(_real, a[1] if _name in ("symlink", "link") else a[0], a, kw, _name)

            setattr(os, name, wrapped)
        real_open = builtins.open

        def opened(*a, **kw):
            mode = kw.get("mode", a[1] if len(a) > 1 else "r")
            if isinstance(mode, str) and set(mode) & set("wax+") and not isinstance(a[0], int):
                f = self.around(real_open, a[0], a, kw, "open")
                return Written(f, self, a[0]) if self.concerns(a[0]) else f
            return real_open(*a, **kw)

        builtins.open = opened
        io.open = opened


class Written:
    """A file open for writing; its closing is a point of its own, at which
    only half of what was written has reached the disk."""

    def __init__(self, f, plan, path):
        self.__dict__.update(_f=f, _plan=plan, _path=path)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        plan = self._plan
        if self._f.closed:
            return
        plan.n += 1
        if plan.n == plan.k:
            self._f.flush()
            size = os.fstat(self._f.fileno()).st_size
            if plan.mode != "after":
                os.ftruncate(self._f.fileno(), size // 2)
            self._f.close()
            plan.hit = f"close {os.path.abspath(self._path)[len(plan.root):]}"
            if plan.mode == "fail":
                raise OSError(errno.EIO, "Input/output error", self._path)
            os.write(plan.fd, json.dumps({"killed": plan.hit}).encode())
            os._exit(9)
        self._f.close()


def faulty_build(root, k, mode, dev=False, symlinks=False, schedule=None, within=""):
    """mode: before, after (killed there) or fail.  within: only operations on
    files directly in this folder count.  Returns
    ("killed"|"failed"|"done", what)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = {"error": "?"}
        try:
            plan = Plan(root, k, mode, within)
            plan.install(w)
            try:
                site.build(root, dev=dev, symlinks=symlinks, schedule=schedule)
                out = {"done": plan.n, "hit": plan.hit}
            except site.BuildFailed as e:
                out = {"failed": str(e), "n": plan.n, "hit": plan.hit}
        except BaseException:
            out = {"error": traceback.format_exc()[-1500:]}
        os.write(w, json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = json.loads(data)
    if "error" in out:
        from vp.core import HarnessError

        raise HarnessError(out["error"])
    for what in ("killed", "failed", "done"):
        if what in out:
            return what, out


def count(root, **kw):
    """How many points a build here has."""
    return faulty_build(root, -1, "before", **kw)
