"""The simulated disk: real files in a scratch directory behind a fault layer.

``io.open``/``open`` on a path inside the scratch directory returns a file whose
raw layer is ours, with a small buffer so that one write of the library becomes
many raw writes.  Everything else goes to the real ``open``.  One fault is armed
for one API call:

  {"at": "open",  "errno": "EACCES"}              open fails
  {"at": "write", "after": k, "errno": "ENOSPC"}  k bytes land, then the error
  {"at": "write", "after": k, "crash": true}      the process dies there
  {"at": "close", "errno": "EIO"}                 data landed, close reports an error
  {"at": "read",  "after": k, "errno": "EIO"}     k bytes are read, then the error
  {"at": "short", "n": n}                         reads and writes move at most n bytes (legal)
  {"at": "rename", ...}/{"at": "fsync", ...}      os.replace/os.rename/os.fsync fail
"""
import builtins
import errno as _errno
import io
import os

_real_open = io.open
_real = {k: getattr(os, k) for k in ("replace", "rename", "fsync")}
root = None
armed = None
fired = None
crashed = False
counts = {}
stats = {"open": 0, "raw_write": 0, "raw_read": 0, "bytes_written": 0, "bytes_read": 0}


class Crash(BaseException):
    """The simulated process died."""


def _err(spec):
    n = getattr(_errno, spec["errno"])
    return OSError(n, os.strerror(n) + " (simulated)")


def _hit(kind):
    global fired
    fired = kind
    counts[kind] = counts.get(kind, 0) + 1


def _fail(spec, where):
    global crashed
    if spec.get("crash"):
        crashed = True
        _hit("crash@" + where)
        raise Crash("process crash during " + where)
    _hit("%s@%s" % (spec["errno"], where))
    raise _err(spec)


class Raw(io.RawIOBase):
    def __init__(self, path, mode, spec):
        super().__init__()
        self._f = io.FileIO(path, mode)
        self._spec = spec
        self._w = 0
        self._r = 0
        self.name = path

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        return self._f.truncate(*a)

    def fileno(self):
        return self._f.fileno()

    def readinto(self, b):
        stats["raw_read"] += 1
        s = self._spec
        n = len(b)
        if s and s["at"] == "short":
            n = min(n, s["n"])
            if fired != "short":
                _hit("short")
        if s and s["at"] == "read":
            left = s["after"] - self._r
            if left <= 0:
                _fail(s, "read")
            n = min(n, left)
        data = self._f.read(n)
        b[:len(data)] = data
        self._r += len(data)
        stats["bytes_read"] += len(data)
        return len(data)

    def write(self, b):
        stats["raw_write"] += 1
        if crashed:
            return len(b)
        s = self._spec
        b = bytes(b)
        n = len(b)
        if s and s["at"] == "short":
            n = min(n, s["n"])
            if fired != "short":
                _hit("short")
        if s and s["at"] == "write":
            left = s["after"] - self._w
            if left <= 0:
                _fail(s, "write")
            n = min(n, left)
        k = self._f.write(b[:n])
        self._w += k
        stats["bytes_written"] += k
        return k

    def close(self):
        if self.closed:
            return
        s = self._spec
        wrote = self._f.writable()
        try:
            super().close()
        finally:
            self._f.close()
        if s and s["at"] == "close" and wrote and not crashed and fired is None:
            _fail(s, "close")


def _inside(file):
    if root is None or isinstance(file, int):
        return None
    try:
        p = os.path.abspath(os.fspath(file))
    except TypeError:
        return None
    if isinstance(p, bytes):
        return None
    return p if p.startswith(root + os.sep) else None


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = _inside(file)
    if p is None or opener is not None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    stats["open"] += 1
    s = armed
    writing = any(c in mode for c in "wax+")
    if s and s["at"] in ("write", "close") and not writing:
        s = None
    if s and s["at"] == "read" and writing:
        s = None
    if s and s["at"] == "open" and fired is None:
        _fail(s, "open")
    if crashed and writing:
        raise Crash("process is dead")
    raw = Raw(p, mode.replace("b", "").replace("t", ""), s)
    size = 64 if buffering in (-1, 1) else max(buffering, 1)
    if "b" in mode and buffering == 0:
        return raw
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline)


def _wrap(name):
    def f(*a, **k):
        s = armed
        if s and s["at"] == ("fsync" if name == "fsync" else "rename") and fired is None:
            _fail(s, name)
        if crashed:
            raise Crash("process is dead")
        return _real[name](*a, **k)
    return f


def install():
    io.open = sim_open
    builtins.open = sim_open
    for k in _real:
        setattr(os, k, _wrap(k))


def mount(path):
    global root, crashed, armed, fired
    root = os.path.abspath(path)
    crashed = False
    armed = fired = None


def arm(spec):
    global armed, fired
    armed, fired = spec, None


def disarm():
    global armed, fired
    f = fired
    armed = fired = None
    return f


def restart():
    """The process starts again: whatever reached the disk is there."""
    global crashed
    crashed = False


def raw_bytes(path):
    """What is really on the disk, past every user-space buffer."""
    fd = os.open(path, os.O_RDONLY)
    try:
        out = b""
        while True:
            c = os.read(fd, 1 << 16)
            if not c:
                return out
            out += c
    finally:
        os.close(fd)


def put(path, data):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        os.write(fd, data)
    finally:
        os.close(fd)
    os.utime(path, (1e9, 1e9))        # simulated time of files: a coarse clock that does not move
