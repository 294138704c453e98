"""The simulated disk.

Inside a run every file operation on the watched folders goes through here:
opens, reads, writes, closes, fsync, rename, unlink, mkdir and directory
listings.  Operations are counted and logged; the run's fault list decides
which of them fail and how; buffer sizes, short reads and the order of
directory listings come from the run's seed.  The log of mutating operations
is complete, so that the state of the disk after a crash at any point can be
computed afterwards (see crash_states).
"""
import builtins
import errno
import io
import os
import random
import time

_open = io.open
_os = {
    k: getattr(os, k)
    for k in (
        "open", "rename", "replace", "remove", "unlink", "mkdir", "rmdir", "link",
        "symlink", "fsync", "fdatasync", "listdir", "scandir", "ftruncate", "truncate",
        "sendfile", "copy_file_range", "write",
    )
    if hasattr(os, k)
}
ERR = {k: getattr(errno, k) for k in ("ENOSPC", "EIO", "EACCES", "EMFILE", "ENOENT", "EDQUOT", "EROFS", "EINTR", "ESTALE")}


class Disk:
    def __init__(self):
        self.write_roots = ()
        self.write_excl = None
        self.read_roots = ()
        self.active = False
        self.log = []  # mutating operations, in order
        self.n_mut = 0
        self.n_read = 0
        self.faults = []  # armed faults
        self.fired = []
        self.rng = random.Random(0)
        self.bufsize = None
        self.order = None  # random.Random for directory listings
        self.inode = {}
        self.next_inode = 1
        self.short_reads = False
        self.read_log = []

    def ident(self, fd, new=False):
        """a stable name for a file body (inode numbers may be reused)"""
        ino = os.fstat(fd).st_ino
        if new:
            self.inode[ino] = f"n{self.next_inode}"
            self.next_inode += 1
        return self.inode.get(ino, ino)

    # -- which paths are simulated

    def writes(self, path):
        if not self.active or (self.write_excl and (path == self.write_excl or path.startswith(self.write_excl + "/"))):
            return False
        return any(path.startswith(r) for r in self.write_roots)

    def reads(self, path):
        if not self.active or (self.write_excl and path.startswith(self.write_excl + "/")):
            return False
        return any(path.startswith(r) for r in self.read_roots)

    # -- faults

    def arm(self, faults):
        self.faults = [dict(f) for f in faults]
        self.n_mut = 0
        self.n_read = 0

    def disarm(self):
        self.faults = []

    def hit(self, side, what, path):
        """called before each operation; returns an armed fault or None"""
        if side == "w":
            self.n_mut += 1
            n = self.n_mut
        else:
            self.n_read += 1
            n = self.n_read
        for f in self.faults:
            if f.get("side", "w") != side or f.get("done"):
                continue
            if f.get("path"):
                if not str(path).endswith(f["path"]):
                    continue
            elif n < f["n"] or (n > f["n"] and not f.get("sticky")):
                continue
            if f.get("what") and f["what"] != what:
                continue
            if f.get("sticky") and f["err"] in ("ENOSPC", "EDQUOT") and what not in ("write", "create", "mkdir", "flush"):
                continue
            if not f.get("sticky"):
                f["done"] = True
            self.fired.append((f["err"], what))
            return f
        return None

    def err(self, f, path):
        code = ERR[f["err"]]
        return OSError(code, os.strerror(code), path)


DISK = Disk()


class SimRaw(io.RawIOBase):
    """a raw file whose every operation is seen by the simulated disk"""

    def __init__(self, fd, path, mode, readable, writable):
        self._fd = fd
        self._path = path
        self._r, self._w = readable, writable
        self.mode = mode
        self.name = path
        self._ino = DISK.ident(fd)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        n = len(b)
        if DISK.reads(self._path):
            f = DISK.hit("r", "read", self._path)
            if f:
                raise DISK.err(f, self._path)
            if DISK.short_reads and n > 1:
                n = DISK.rng.randint(1, n)
        data = os.read(self._fd, n)
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        data = bytes(b)
        if DISK.active and DISK.writes(self._path):
            f = DISK.hit("w", "write", self._path)
            if f:
                k = int(len(data) * f.get("part", 0))
                if k:
                    self._emit(data[:k])
                if k and f.get("short"):
                    # a short write is legal: the caller has to continue
                    return k
                raise DISK.err(f, self._path)
        self._emit(data)
        return len(data)

    def _emit(self, data):
        off = os.lseek(self._fd, 0, 1)
        _write_all(self._fd, data)
        if DISK.active:
            DISK.log.append(("write", self._ino, off, data))

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        os.ftruncate(self._fd, size)
        DISK.log.append(("truncate", self._ino, size))
        return size

    def close(self):
        if self.closed:
            return
        fault = None
        if self._w and DISK.active and DISK.writes(self._path):
            fault = DISK.hit("w", "close", self._path)
        super().close()
        try:
            os.close(self._fd)
        except OSError:
            pass
        if fault:
            raise DISK.err(fault, self._path)


def _write_all(fd, data):
    while data:
        k = _os["write"](fd, data)
        data = data[k:]


def _norm(p):
    if isinstance(p, int):
        return None
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return os.path.normpath(os.path.join(os.getcwd(), p))


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not DISK.active:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        try:
            path = os.readlink(f"/proc/self/fd/{file}")
        except OSError:
            path = ""
    else:
        path = _norm(file)
    reading = "r" in mode and "+" not in mode
    writing = any(c in mode for c in "wax+")
    if not ((writing and DISK.writes(path)) or (reading and DISK.reads(path))):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        fd = file
    else:
        if reading:
            f = DISK.hit("r", "open", path)
            if f:
                raise DISK.err(f, path)
            DISK.read_log.append(path)
            flags = os.O_RDONLY
        else:
            f = DISK.hit("w", "create", path)
            if f:
                raise DISK.err(f, path)
            flags = os.O_RDWR if "+" in mode else os.O_WRONLY
            if "w" in mode:
                flags |= os.O_CREAT | os.O_TRUNC
            if "a" in mode:
                flags |= os.O_CREAT | os.O_APPEND
            if "x" in mode:
                flags |= os.O_CREAT | os.O_EXCL
        if opener is not None:
            fd = opener(file, flags | os.O_CLOEXEC)
            path = os.readlink(f"/proc/self/fd/{fd}")
        else:
            existed = os.path.lexists(path)
            fd = _os["open"](path, flags | os.O_CLOEXEC, 0o666)
            if writing:
                _log_open(fd, path, existed, flags)
    raw = SimRaw(fd, path, mode, reading or "+" in mode, writing)
    if "a" in mode:
        raw.seek(0, 2)
    text = "b" not in mode
    if buffering == 0:
        return raw
    size = DISK.bufsize or io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1))
    t.mode = mode
    return t


def _log_open(fd, path, existed, flags):
    ino = DISK.ident(fd, new=not existed)
    if not existed:
        DISK.log.append(("create", path, ino))
    elif flags & os.O_TRUNC:
        DISK.log.append(("truncate", ino, 0))


def _mut(name, what, npaths=1):
    orig = _os[name]

    def f(*a, **k):
        if not DISK.active:
            return orig(*a, **k)
        paths = [_norm(p) for p in a[:npaths]]
        if None in paths or not any(DISK.writes(p) for p in paths):
            return orig(*a, **k)
        if k.get("dir_fd") is not None or k.get("src_dir_fd") is not None:
            return orig(*a, **k)
        fault = DISK.hit("w", what, paths[0])
        if fault:
            raise DISK.err(fault, paths[0])
        out = orig(*a, **k)
        DISK.log.append((what, *paths))
        return out

    f.__name__ = name
    return f


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if not DISK.active or dir_fd is not None:
        return _os["open"](path, flags, mode, dir_fd=dir_fd)
    p = _norm(path)
    if not DISK.writes(p) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
        return _os["open"](path, flags, mode)
    fault = DISK.hit("w", "create", p)
    if fault:
        raise DISK.err(fault, p)
    existed = os.path.lexists(p)
    fd = _os["open"](path, flags, mode)
    _log_open(fd, p, existed, flags)
    return fd


def sim_os_write(fd, data):
    if DISK.active:
        try:
            path = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            path = ""
        if DISK.writes(path):
            f = DISK.hit("w", "write", path)
            if f:
                raise DISK.err(f, path)
            off = os.lseek(fd, 0, 1)
            k = _os["write"](fd, data)
            DISK.log.append(("write", DISK.ident(fd), off, bytes(data)[:k]))
            return k
    return _os["write"](fd, data)


def sim_fsync(fd):
    if DISK.active:
        n = fd if isinstance(fd, int) else fd.fileno()
        try:
            path = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            path = ""
        if DISK.writes(path) or any((path + "/").startswith(r) for r in DISK.write_roots):
            f = DISK.hit("w", "fsync", path)
            if f:
                raise DISK.err(f, path)
            if os.path.isdir(path):
                DISK.log.append(("fsyncdir", path))
            else:
                DISK.log.append(("fsync", DISK.ident(n)))
            return None
    return _os["fsync"](fd)


def sim_listdir(path="."):
    out = _os["listdir"](path)
    if DISK.active and DISK.order is not None:
        out = sorted(out)
        DISK.order.shuffle(out)
    return out


class _Scan:
    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self.items

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def sim_scandir(path="."):
    if DISK.active and DISK.order is not None:
        with _os["scandir"](path) as it:
            out = sorted(it, key=lambda e: e.name)
        DISK.order.shuffle(out)
        return _Scan(out)
    return _os["scandir"](path)


def _no_fast_copy(*a, **k):
    if DISK.active:
        raise OSError(errno.ENOTSOCK, "simulated disk has no fast copy")
    return _os["sendfile"](*a, **k)


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    for name, what, n in (
        ("rename", "rename", 2), ("replace", "rename", 2), ("remove", "unlink", 1),
        ("unlink", "unlink", 1), ("mkdir", "mkdir", 1), ("rmdir", "rmdir", 1), ("link", "link", 2),
        ("symlink", "symlink", 2),
    ):
        setattr(os, name, _mut(name, what, n))
    os.fsync = sim_fsync
    os.fdatasync = sim_fsync
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.sendfile = _no_fast_copy
    if hasattr(os, "copy_file_range"):
        os.copy_file_range = _no_fast_copy


# ------------------------------------------------------------ crash states


def snapshot(root):
    """{path: bytes or None for folders} and {path: inode}"""
    files, inodes = {}, {}
    for d, subs, names in os.walk(root):
        files[d] = None
        for n in names:
            p = os.path.join(d, n)
            with _open(p, "rb") as fh:
                files[p] = fh.read()
            inodes[p] = os.stat(p).st_ino
    return files, inodes


def state_after(initial, inodes, log, upto, loss=None):
    """Disk content after the first `upto` operations of the log, then a stop.

    loss=None: the process died, the operating system did not: everything the
    process handed over is there.  loss=Random: the machine died: data not
    fsynced may be missing (a random prefix of the unsynced writes of each file
    survives, the last one possibly torn), and of the folder operations a random
    prefix survives, at least up to the last fsync of a folder.
    """
    names = {p: (inodes[p] if c is not None else None) for p, c in initial.items()}
    data = {inodes[p]: bytearray(c) for p, c in initial.items() if c is not None}
    ops = log[:upto]
    meta_idx = [i for i, o in enumerate(ops) if o[0] in ("create", "rename", "unlink", "mkdir", "rmdir", "link")]
    keep_meta = set(meta_idx)
    keep_data = {i for i, o in enumerate(ops) if o[0] in ("write", "truncate")}
    torn = {}
    if loss is not None:
        floor = max([i for i, o in enumerate(ops) if o[0] == "fsyncdir"], default=-1)
        free = [i for i in meta_idx if i > floor]
        cut = loss.randint(0, len(free)) if loss.random() < 0.5 else len(free)
        keep_meta -= set(free[cut:])
        by_ino = {}
        for i in sorted(keep_data):
            by_ino.setdefault(ops[i][1], []).append(i)
        for ino, idx in by_ino.items():
            synced = max([i for i, o in enumerate(ops) if o[0] == "fsync" and o[1] == ino], default=-1)
            uns = [i for i in idx if i > synced]
            if not uns or loss.random() < 0.4:
                continue
            k = loss.randint(0, len(uns))
            keep_data -= set(uns[k:])
            if k < len(uns) and ops[uns[k]][0] == "write" and loss.random() < 0.5:
                d = ops[uns[k]][3]
                torn[uns[k]] = loss.randint(0, len(d))
                keep_data.add(uns[k])
    for i, o in enumerate(ops):
        k = o[0]
        if k == "write" and i in keep_data:
            d = o[3][: torn[i]] if i in torn else o[3]
            buf = data.setdefault(o[1], bytearray())
            if len(buf) < o[2]:
                buf.extend(b"\0" * (o[2] - len(buf)))
            buf[o[2] : o[2] + len(d)] = d
        elif k == "truncate" and i in keep_data:
            buf = data.setdefault(o[1], bytearray())
            if len(buf) > o[2]:
                del buf[o[2] :]
            else:
                buf.extend(b"\0" * (o[2] - len(buf)))
        elif i in keep_meta:
            if k == "create":
                names[o[1]] = o[2]
                if o[2] not in data:
                    data[o[2]] = bytearray()
            elif k == "mkdir":
                names[o[1]] = None
            elif k == "rename":
                if o[1] in names:
                    names[o[2]] = names.pop(o[1])
            elif k in ("unlink", "rmdir"):
                names.pop(o[1], None)
            elif k == "link":
                if o[1] in names:
                    names[o[2]] = names[o[1]]
    return {p: (None if ino is None else bytes(data.get(ino, b""))) for p, ino in names.items()}


# ------------------------------------------------------------ clock


class Clock:
    def __init__(self, start, rng, jumpy):
        self.now, self.rng, self.jumpy = float(start), rng, jumpy
        self.calls = 0

    def time(self):
        self.calls += 1
        if self.jumpy and self.rng.random() < 0.2:
            self.now += self.rng.choice([-7200.0, -1.5, 0.0, 86400.0, 0.25])
        else:
            self.now += self.rng.random() * 0.01
        return self.now

    def sleep(self, s):
        self.now += max(0.0, s)


def install_clock(clock):
    time.time = clock.time
    time.time_ns = lambda: int(clock.time() * 1e9)
    time.sleep = clock.sleep
    time.monotonic = lambda: abs(clock.now) + clock.calls * 1e-3
    time.perf_counter = time.monotonic
