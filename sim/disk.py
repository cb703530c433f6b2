"""A simulated disk: every operation that creates or changes something below a root directory goes through here.

The contents live in a scratch directory; what the simulator decides is which operation fails and how: error codes,
short writes, a disk that becomes full in the middle of a write, a close that reports an error after data was lost, and
the moment at which the process is killed (only what had reached the operating system is there afterwards).
Operations are addressed by kind and occurrence, so that a plan is one exact history."""
import builtins
import errno
import io
import os
import stat

from . import monitor

ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EROFS": errno.EROFS, "EMFILE": errno.EMFILE,
       "EDQUOT": errno.EDQUOT, "ENOENT": errno.ENOENT, "EXDEV": errno.EXDEV, "EPERM": errno.EPERM, "ENOTEMPTY": errno.ENOTEMPTY}


class Killed(BaseException):
    """The process is killed here.  What runs after this moment (handlers, cleanup) changes nothing on the disk any more."""


class DiskError(OSError, monitor.Injected):
    pass


def error(name, path=None):
    # the class the operating system would use (PermissionError, FileNotFoundError, ...)
    base = type(OSError(ERR[name], "x"))
    if base is OSError:
        return DiskError(ERR[name], os.strerror(ERR[name]), path)
    return type("Injected" + base.__name__, (base, monitor.Injected), {})(ERR[name], os.strerror(ERR[name]), path)


class Raw(io.FileIO):
    """A file opened for writing on the simulated disk."""
    _disk = _rel = None
    _lost = None

    def attach(self, disk, rel):
        self._disk, self._rel = disk, rel
        return self

    def write(self, b):
        d = self._disk
        if d is None or not d.active:
            return super().write(b)
        b = memoryview(b).cast("B")
        n = len(b)
        if d.dead:
            return n
        f = d.event("write", self._rel, n)
        if d.room is not None:
            if n > d.room:
                part = b[:d.room]
                d.room = 0
                if len(part):
                    d.note("short", self._rel)
                    return super().write(part)
                d.note("full", self._rel)
                raise error("ENOSPC", self._rel)
            d.room -= n
        if f is None:
            return super().write(b)
        if f["how"] == "short":
            d.note("short", self._rel)
            return super().write(b[:max(1, int(n * f["frac"]))])
        if f["how"] == "kill":
            super().write(b[:int(n * f["frac"])])
            d.kill("write", self._rel)
        if f["how"] == "torn":
            super().write(b[:int(n * f["frac"])])
            d.note("torn", self._rel)
            raise error(f["err"], self._rel)
        d.note("write:" + f["err"], self._rel)
        raise error(f["err"], self._rel)

    def close(self):
        if self.closed or self._disk is None or not self._disk.active or self._disk.dead:
            return super().close()
        d, self._disk = self._disk, None
        f = d.event("close", self._rel)
        if f is None:
            return super().close()
        if f["how"] == "kill":
            super().close()
            d.kill("close", self._rel)
        size = os.fstat(self.fileno()).st_size
        # what had only reached the cache is gone
        os.ftruncate(self.fileno(), int(size * f["frac"]))
        super().close()
        d.note("close:" + f["err"], self._rel)
        raise error(f["err"], self._rel)


class Disk:
    """with Disk(root, plan): ...    plan: [{"op", "n", "how", "err", "frac"}], room: bytes until the disk is full"""

    def __init__(self, root, plan=(), room=None):
        self.root = os.path.realpath(root)
        self.plan = {(p["op"], p["n"]): p for p in plan}
        self.room = room
        self.counts = {}
        self.log = []
        self.fired = []
        self.fds = {}
        self.active = False
        self.dead = False         # the process has been killed
        self.before = None        # called before each operation

    # -------------------------------------------------------------------------------------------- events
    def event(self, op, rel, size=None):
        if self.before is not None:
            self.before()
        n = self.counts[op] = self.counts.get(op, 0) + 1
        self.log.append((op, rel))
        f = self.plan.get((op, n))
        if f is not None and f.get("after") is not None and len(self.log) < f["after"]:
            return None
        return f

    def note(self, what, rel):
        self.fired.append((what, rel))

    def kill(self, op, rel):
        self.dead = True
        self.note("kill at " + op, rel)
        raise Killed("killed at %s of %s" % (op, rel))

    def fail(self, op, rel):
        f = self.event(op, rel)
        if f is not None:
            if f["how"] == "kill":
                self.kill(op, rel)
            self.note("%s:%s" % (op, f["err"]), rel)
            raise error(f["err"], rel)

    def rel(self, p):
        """Path below the root, or None."""
        if isinstance(p, int):
            return self.fds.get(p)
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        full = os.path.realpath(os.path.dirname(os.path.abspath(p)))
        full = os.path.join(full, os.path.basename(p))
        if full == self.root or full.startswith(self.root + os.sep):
            return os.path.relpath(full, self.root)
        return None

    # -------------------------------------------------------------------------------------------- patched functions
    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rel = self.rel(file) if self.active else None
        writing = isinstance(mode, str) and any(c in mode for c in "wax+")
        if self.dead and rel is not None and writing and not isinstance(file, int):
            raise Killed("killed")
        if rel is None or not writing:
            return self.o_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = "b" in mode
        rawmode = mode.replace("b", "").replace("t", "")
        if binary and (encoding is not None or errors is not None or newline is not None):
            raise ValueError("binary mode doesn't take an encoding argument")
        if not isinstance(file, int):
            self.fail("open", rel)
        raw = Raw(file, rawmode, closefd, opener).attach(self, rel)
        if isinstance(file, int):
            self.fds.pop(file, None)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        rel = self.rel(path) if self.active and dir_fd is None else None
        if rel is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            if self.dead:
                raise Killed("killed")
            self.fail("open", rel)
            fd = self.o_os["open"](path, flags, mode)
            self.fds[fd] = rel
            return fd
        return self.o_os["open"](path, flags, mode, dir_fd=dir_fd)

    def _os_write(self, fd, data):
        rel = self.fds.get(fd) if self.active else None
        if rel is not None:
            if self.dead:
                return len(data)
            f = self.event("write", rel, len(data))
            if f is not None:
                if f["how"] == "short":
                    self.note("short", rel)
                    return self.o_os["write"](fd, bytes(data)[:max(1, int(len(data) * f["frac"]))])
                if f["how"] == "kill":
                    self.o_os["write"](fd, bytes(data)[:int(len(data) * f["frac"])])
                    self.kill("write", rel)
                self.note("write:" + f.get("err", "EIO"), rel)
                raise error(f.get("err", "EIO"), rel)
        return self.o_os["write"](fd, data)

    def _os_close(self, fd):
        rel = self.fds.pop(fd, None) if self.active else None
        self.o_os["close"](fd)
        if rel is not None and not self.dead:
            self.fail("close", rel)

    def _one(self, name):
        orig = self.o_os[name]

        def op(path, *a, **k):
            if self.active and k.get("dir_fd") is None:
                rel = self.rel(path)
                if rel is not None:
                    if self.dead:
                        return None
                    self.fail(name, rel)
            return orig(path, *a, **k)
        return op

    def _two(self, name):
        orig = self.o_os[name]

        def op(src, dst, *a, **k):
            if self.active:
                rel = self.rel(dst) or self.rel(src)
                if rel is not None:
                    if self.dead:
                        return None
                    self.fail(name, rel)
            return orig(src, dst, *a, **k)
        return op

    ONE = ("mkdir", "remove", "unlink", "rmdir", "truncate", "chmod")
    TWO = ("rename", "replace", "link", "symlink")

    def __enter__(self):
        self.o_open, self.o_io = builtins.open, io.open
        self.o_os = {n: getattr(os, n) for n in self.ONE + self.TWO + ("open", "write", "close", "fsync", "ftruncate")}
        builtins.open = io.open = self._open
        for n in self.ONE:
            setattr(os, n, self._one(n))
        for n in self.TWO:
            setattr(os, n, self._two(n))
        os.open, os.write, os.close = self._os_open, self._os_write, self._os_close

        def fsync(fd, orig=os.fsync):
            if self.active:
                if self.dead:
                    return None
                self.fail("fsync", "?")
            return orig(fd)
        os.fsync = fsync
        self.active = True
        return self

    def __exit__(self, *a):
        self.active = False
        builtins.open, io.open = self.o_open, self.o_io
        for n, f in self.o_os.items():
            setattr(os, n, f)
        return False


def snapshot(root):
    """{relative path: bytes | ("dir",) | ("link", target)} of everything below root."""
    res = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                res[os.path.relpath(p, root)] = ("link", os.readlink(p))
            else:
                res[os.path.relpath(p, root)] = ("dir",)
        for n in files:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                res[r] = ("link", os.readlink(p))
            elif stat.S_ISREG(os.lstat(p).st_mode):
                with open(p, "rb") as f:
                    res[r] = f.read()
            else:
                res[r] = ("special",)
    return res
