"""Files of a run live in its own scratch directory; what reaches them goes through a faulty raw layer.

The buffering above is Python's own, so data not yet written out is lost when a process is killed.
Fault plan (per opened file, by opening order):
  {"n": index of the open, "kind": "open"|"enospc"|"eio"|"short"|"crash"|"close"|"read_eio"|"read_short"|"read_trunc",
   "at": byte position}
"""
import builtins
import errno
import io
import locale
import os
import tempfile

from . import kernel as K

_real_open = io.open
_os_open, _os_write, _os_read, _os_close = os.open, os.write, os.read, os.close


class SimRaw(io.RawIOBase):
    def __init__(self, real, k, plan, proc):
        self._r, self._k, self._plan, self._proc = real, k, plan, proc
        self._pos = 0
        self.name = real.name
        self.mode = real.mode

    def _gone(self):
        return self._k.dead or not self._proc.alive

    def readable(self):
        return self._r.readable()

    def writable(self):
        return self._r.writable()

    def seekable(self):
        return self._r.seekable()

    def fileno(self):
        return self._r.fileno()

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        self._pos = self._r.seek(off, whence)
        return self._pos

    def tell(self):
        return self._r.tell()

    def truncate(self, size=None):
        return self._pos if self._gone() else self._r.truncate(size)

    def _fault(self, *kinds):
        for f in self._plan:
            if f["kind"] in kinds and not f.get("done"):
                return f
        return None

    def write(self, b):
        b = bytes(b)
        k = self._k
        if self._gone():
            return len(b)
        k.log("write", len(b))
        f = self._fault("enospc", "eio", "short", "crash")
        if f is not None and self._pos + len(b) > f["at"]:
            n = max(0, f["at"] - self._pos)
            kind = f["kind"]
            if kind == "short":
                f["done"] = True
                n = max(1, n)
                k.count("io_short_write")
                self._r.write(b[:n])
                self._pos += n
                return n
            self._r.write(b[:n])
            self._pos += n
            if kind == "crash":
                f["done"] = True
                k.count("io_kill_during_write")
                k.kill_process(self._proc)
                return len(b)
            if kind == "enospc":
                if n:
                    k.count("io_short_write")
                    return n
                k.count("io_enospc")
                raise OSError(errno.ENOSPC, "No space left on device (simulated)")
            f["done"] = f.get("once", True)
            k.count("io_eio_write")
            raise OSError(errno.EIO, "Input/output error (simulated)")
        self._r.write(b)
        self._pos += len(b)
        return len(b)

    def readinto(self, buf):
        k = self._k
        f = self._fault("read_eio", "read_short", "read_trunc")
        n = len(buf)
        if f is not None:
            left = f["at"] - self._pos
            if f["kind"] == "read_short":
                n = max(1, min(n, 1 + (f["at"] + self._pos) % 61))
                k.count("io_short_read")
            elif left < n:
                n = max(0, left)
                if n == 0:
                    if f["kind"] == "read_eio":
                        k.count("io_eio_read")
                        raise OSError(errno.EIO, "Input/output error (simulated)")
                    k.count("io_truncated_read")
                    return 0
        d = self._r.read(n) or b""
        buf[:len(d)] = d
        self._pos += len(d)
        k.log("read", len(d))
        return len(d)

    def close(self):
        if not self.closed:
            fds = (getattr(self._k, "fs", None) or {}).get("fds", {})
            for fd in [x for x, r in fds.items() if r is self]:
                del fds[fd]
            f = self._fault("close")
            try:
                super().close()
            finally:
                self._r.close()
            if f is not None and not self._gone():
                f["done"] = True
                self._k.count("io_eio_close")
                raise OSError(errno.EIO, "Input/output error on close (simulated)")


def _ours(fs, path, writing):
    if path.startswith(fs["dir"] + "/"):
        return True
    # the package may write elsewhere first and move the file
    return writing and path.startswith(fs["tmp"] + "/") and "/ctbn-" not in path[len(fs["tmp"]):]


def _opening(k, fs, path, mode):
    """Counts the open and lets it fail if planned; the plan of this file."""
    n = fs["opens"]
    fs["opens"] += 1
    plan = [f for f in fs["plan"] if f["n"] == n]
    # names chosen by tempfile differ from run to run only if the package seeds them so: keep them out of the log
    k.log("open", os.path.relpath(path, fs["dir"]) if path.startswith(fs["dir"] + "/") else "elsewhere", mode)
    k.count("file_opens")
    for f in plan:
        if f["kind"] == "open":
            k.count("io_open_failure")
            raise OSError(f.get("errno", errno.EMFILE), "open failed (simulated)", path)
    return plan


def _fs():
    k = K.CURRENT
    fs = getattr(k, "fs", None) if k is not None and not k.dead else None
    return k, fs


def os_open(path, flags, mode=0o777, *, dir_fd=None):
    k, fs = _fs()
    if fs is None or dir_fd is not None or not isinstance(path, (str, bytes, os.PathLike)):
        return _os_open(path, flags, mode, dir_fd=dir_fd)
    full = os.path.abspath(os.fsdecode(os.fspath(path)))
    acc = flags & os.O_ACCMODE
    if not _ours(fs, full, acc != os.O_RDONLY) or flags & os.O_DIRECTORY:
        return _os_open(path, flags, mode)
    plan = _opening(k, fs, full, {os.O_RDONLY: "r", os.O_WRONLY: "w", os.O_RDWR: "r+"}[acc])
    fd = _os_open(path, flags, mode)
    fs["fds"][fd] = SimRaw(io.FileIO(fd, {os.O_RDONLY: "r", os.O_WRONLY: "w", os.O_RDWR: "r+"}[acc]), k, plan, k.cur.proc)
    return fd


def os_write(fd, data):
    k, fs = _fs()
    if fs is None or fd not in fs["fds"]:
        return _os_write(fd, data)
    return fs["fds"][fd].write(data)


def os_read(fd, n):
    k, fs = _fs()
    if fs is None or fd not in fs["fds"]:
        return _os_read(fd, n)
    buf = bytearray(n)
    return bytes(buf[:fs["fds"][fd].readinto(buf)])


def os_close(fd):
    k, fs = _fs()
    if fs is None or fd not in fs["fds"]:
        return _os_close(fd)
    fs["fds"].pop(fd).close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    k = K.CURRENT
    fs = getattr(k, "fs", None) if k is not None else None
    if fs is not None and not k.dead and isinstance(file, int) and file in fs["fds"] and closefd:
        raw = fs["fds"][file]           # opened by os.open: its plan goes on
    else:
        if fs is None or k.dead or not isinstance(file, (str, bytes, os.PathLike)) or opener is not None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.abspath(os.fsdecode(os.fspath(file)))
        if not _ours(fs, path, any(c in mode for c in "wax+")):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        plan = _opening(k, fs, path, mode)
        rawmode = "".join(c for c in mode if c in "rwax+")
        raw = SimRaw(io.FileIO(path, rawmode), k, plan, k.cur.proc)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else (fs.get("bufsize") or io.DEFAULT_BUFFER_SIZE)
    if "+" in mode:
        b = io.BufferedRandom(raw, size)
    elif any(c in mode for c in "wax"):
        b = io.BufferedWriter(raw, size)
    else:
        b = io.BufferedReader(raw, size)
    if "b" in mode:
        return b
    t = io.TextIOWrapper(b, encoding or locale.getencoding(), errors, newline, buffering == 1)
    t.mode = mode
    return t


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open, os.write, os.read, os.close = os_open, os_write, os_read, os_close


def attach(k, directory, plan=(), bufsize=None):
    k.fs = {"dir": os.path.realpath(directory), "plan": [dict(f) for f in plan], "opens": 0, "bufsize": bufsize,
            "fds": {}, "tmp": os.path.realpath(tempfile.gettempdir())}
