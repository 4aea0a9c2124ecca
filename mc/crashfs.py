"""A file system under fault injection, for code running in this process.

Every effect a process can have on files under `root` (creating / truncating a file, the bytes
of a write becoming visible, rename, remove, mkdir, ...) is one numbered step.  A Plan either
only records the steps, or kills the process at step k (after j bytes of that write), or makes
step k fail with OSError.  A killed process has no further effect: Crash (a BaseException)
unwinds it, and every later step until recovery is suppressed.
"""
import builtins
import contextlib
import io
import os
import threading

_open = io.open
_real = {n: getattr(os, n) for n in (
    "open", "close", "write", "replace", "rename", "renames", "remove", "unlink", "link", "symlink", "truncate",
    "ftruncate", "fsync", "mkdir", "makedirs", "rmdir", "pwrite", "writev", "sendfile", "fdopen", "fdatasync")
    if hasattr(os, n)}


class Crash(BaseException):
    pass


class Plan(object):
    """kind: None (log only) | 'crash' | 'error'; at: step number; torn: bytes of a write kept."""

    def __init__(self, kind=None, at=None, torn=0, on_step=None):
        self.kind, self.at, self.torn = kind, at, torn
        self.log = []             # (what, size)
        self.dead = False
        self.fired = False
        self.on_step = on_step
        self.lock = threading.RLock()

    def step(self, what, size=0):
        """Returns number of bytes to let through (None: everything, effect happens)."""
        if self.dead:
            return -1
        if self.on_step is not None:
            self.on_step(what)
        if self.dead:
            return -1
        k = len(self.log)
        self.log.append((what, size))
        if self.kind is not None and k == self.at:
            self.fired = True
            return ("fault", self.torn)
        return None


class Faulty(object):
    """The plan in force for a directory tree."""

    def __init__(self, root, plan):
        self.root = os.path.realpath(root)
        self.plan = plan
        self.fds = set()

    def mine(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if isinstance(p, int):
            return p in self.fds
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        ap = os.path.abspath(p)
        return ap == self.root or ap.startswith(self.root + os.sep) or os.path.realpath(ap).startswith(self.root + os.sep)

    def effect(self, what, act, partial=None, size=0):
        """Run act() as one step. partial(j): apply only the first j bytes."""
        pl = self.plan
        v = pl.step(what, size)
        if v is None:
            return act()
        if v == -1:
            if pl.kind == "crash" or pl.dead:
                raise Crash("process is dead: " + what)
        j = v[1]
        if partial is not None and j:
            partial(min(j, size))
        if pl.kind == "crash":
            pl.dead = True
            raise Crash(what)
        raise OSError(28, "No space left on device (injected at %s)" % what)

    # -- open --------------------------------------------------------------------------
    def open(self, file, mode="r", buffering=-1, *a, **k):
        if not self.mine(file) or (not isinstance(file, int) and not any(c in mode for c in "wax+")):
            if self.plan.dead and self.mine(file):
                raise Crash("dead")
            return _open(file, mode, buffering, *a, **k)
        if isinstance(file, int):
            raw = _open(file, mode.replace("t", "").replace("b", "") + "b", 0)
            self.fds.discard(file)
        else:
            m = mode.replace("t", "").replace("b", "") + "b"
            exists = os.path.exists(file)
            if exists and "r" in mode or "a" in mode and exists:
                raw = _open(file, m, 0)
            else:
                raw = self.effect("open-truncate" if exists else "create", lambda: _open(file, m, 0))
        return CrashFile(self, raw, "b" not in mode, k.get("encoding") or "utf-8", str(file))

    # -- os.* --------------------------------------------------------------------------
    def os_open(self, path, flags, *a, **k):
        if not self.mine(path) or not flags & (os.O_WRONLY | os.O_RDWR):
            return _real["open"](path, flags, *a, **k)
        if flags & (os.O_CREAT | os.O_TRUNC):
            fd = self.effect("os.open", lambda: _real["open"](path, flags, *a, **k))
        else:
            fd = _real["open"](path, flags, *a, **k)
        self.fds.add(fd)
        return fd

    def os_close(self, fd):
        self.fds.discard(fd)
        return _real["close"](fd)

    def os_write(self, fd, data):
        if fd not in self.fds:
            return _real["write"](fd, data)
        data = bytes(data)
        return self.effect("write", lambda: _real["write"](fd, data), lambda j: _real["write"](fd, data[:j]), len(data))

    def wrap(self, name, npaths):
        real = _real[name]

        def f(*a, **k):
            if not any(self.mine(p) for p in a[:npaths]):
                return real(*a, **k)
            return self.effect(name, lambda: real(*a, **k))
        return f

    def makedirs(self, path, *a, **k):
        if not self.mine(path):
            return _real["makedirs"](path, *a, **k)
        return self.effect("makedirs", lambda: _real["makedirs"](path, *a, **k))


class CrashFile(io.RawIOBase):
    """Writable file whose bytes become visible at flush/close, as one tearable step."""

    def __init__(self, fs, raw, text, enc, name):
        self._fs, self._raw, self._text, self._enc, self._name = fs, raw, text, enc, name
        self._buf = bytearray()
        self._done = False

    name = property(lambda self: self._name)

    def writable(self):
        return True

    def readable(self):
        return True

    def seekable(self):
        return True

    def write(self, data):
        if self._done:
            raise ValueError("write to closed file")
        if self._text:
            data = data.encode(self._enc)
        data = bytes(data)
        self._buf += data
        return len(data)

    def read(self, *a):
        self.flush()
        r = self._raw.read(*a)
        return r.decode(self._enc) if self._text else r

    def flush(self):
        if not self._buf or self._done:
            return
        data = bytes(self._buf)
        self._buf = bytearray()
        self._fs.effect("write", lambda: self._raw.write(data), lambda j: self._raw.write(data[:j]), len(data))

    def seek(self, *a):
        self.flush()
        return self._raw.seek(*a)

    def tell(self):
        return self._raw.tell() + len(self._buf)

    def truncate(self, *a):
        self.flush()
        return self._fs.effect("truncate", lambda: self._raw.truncate(*a))

    def fileno(self):
        self.flush()
        fd = self._raw.fileno()
        self._fs.fds.add(fd)
        return fd

    def close(self):
        if self._done:
            return
        try:
            self.flush()
        finally:
            self._done = True
            try:
                self._fs.fds.discard(self._raw.fileno())
            except Exception:
                pass
            self._raw.close()

    @property
    def closed(self):
        return self._done

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        # an unclosed file: its buffered bytes were never flushed by a dying process
        try:
            if not self._done:
                self._done = True
                if not self._fs.plan.dead and self._buf:
                    self._raw.write(bytes(self._buf))
                self._raw.close()
        except BaseException:
            pass


@contextlib.contextmanager
def faulty(root, plan):
    fs = Faulty(root, plan)
    names = {"open": fs.os_open, "close": fs.os_close, "write": fs.os_write, "makedirs": fs.makedirs}
    for n, k in (("replace", 2), ("rename", 2), ("renames", 2), ("remove", 1), ("unlink", 1), ("link", 2), ("symlink", 2),
                 ("truncate", 1), ("ftruncate", 1), ("mkdir", 1), ("rmdir", 1), ("sendfile", 1)):
        if n in _real:
            names[n] = fs.wrap(n, k)
    bo, io_open = builtins.open, io.open
    builtins.open = fs.open
    io.open = fs.open
    for n, f in names.items():
        setattr(os, n, f)
    try:
        yield fs
    finally:
        builtins.open = bo
        io.open = io_open
        for n in names:
            setattr(os, n, _real[n])
        if hasattr(os, "open"):
            os.open = _real["open"]


def run(root, plan, fn):
    """fn() under the plan. Returns ('ok', value) | ('crash', None) | ('error', exception)."""
    with faulty(root, plan):
        try:
            v = fn()
        except Crash:
            return "crash", None
        except Exception as e:
            if plan.dead:
                return "crash", None
            return "error", e
    if plan.dead:
        return "crash", None
    return "ok", v
