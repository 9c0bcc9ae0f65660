"""The seam between the code under test and the operating system.

The files of a run live in a private scratch directory; every call that
reaches them goes through this module, which numbers it, records it, and
decides what it delivers: short reads, interrupted calls, errors, torn writes,
a full disk, a crash, listing order, times, locale. Bytes really written to
the scratch directory are the ones that survive a crash.

Operations are numbered per task. A fault is addressed by
{"op": kind, "n": index among the operations of that kind of that task}
or {"op": "any", "n": index among all operations of that task}, optionally
with "path", then "n" counts the operations on that path only.
"""

import errno
import io
import os

from sim.seam import CALENDAR, HOOKS, META, _real
from sim.sched import HarnessError, SimCrash

ERRNO = {
    "enoent": errno.ENOENT,
    "eacces": errno.EACCES,
    "eio": errno.EIO,
    "emfile": errno.EMFILE,
    "enospc": errno.ENOSPC,
    "edquot": errno.EDQUOT,
    "epipe": errno.EPIPE,
    "enomem": errno.ENOMEM,
    "estale": errno.ESTALE,
    "eloop": errno.ELOOP,
    "eisdir": errno.EISDIR,
    "enotdir": errno.ENOTDIR,
    "erofs": errno.EROFS,
    "etimedout": errno.ETIMEDOUT,
    "enametoolong": errno.ENAMETOOLONG,
}
EXC = {
    "interrupt": KeyboardInterrupt,
    "memory": MemoryError,
    "sysexit": lambda *a: SystemExit(143),
    "crash": SimCrash,
}

def _makedirs(path):
    """os.makedirs without the seam."""
    try:
        _real["stat"](path)
    except FileNotFoundError:
        _makedirs(os.path.dirname(path))
        _real["mkdir"](path)


def oserror(kind, path=None):
    num = ERRNO[kind]
    return OSError(num, os.strerror(num), path) if path else OSError(num, os.strerror(num))


class FaultyRaw(io.RawIOBase):
    """The raw layer under every simulated file."""

    def __init__(self, vfs, task, path, raw, entry):
        super().__init__()
        self._vfs = vfs
        self._task = task
        self._path = path
        self._raw = raw
        self._entry = entry
        self._armed = None
        self.name = raw.name
        self.mode = raw.mode

    # -- plumbing
    def readable(self):
        return self._raw.readable()

    def writable(self):
        return self._raw.writable()

    def seekable(self):
        return self._raw.seekable()

    def seek(self, *a):
        return self._raw.seek(*a)

    def tell(self):
        return self._raw.tell()

    def fileno(self):
        return self._raw.fileno()

    def isatty(self):
        return False

    def truncate(self, size=None):
        if self._vfs.crashed:
            return 0
        return self._raw.truncate(size)

    # -- data
    def readinto(self, b):
        vfs = self._vfs
        fault = vfs.operation(self._task, "read", self._path)
        if fault:
            if self._entry["eof"]:
                # Everything had arrived: whether this matters depends on
                # what the program does with the error.
                self._entry["late"] = True
            vfs.fire(fault, self._task, self._path)
        n = len(b)
        limit = vfs.chunk(self._task, "read")
        if limit and len(self._entry["data"]) > 4096:
            # Long files come in longer pieces.
            limit *= 97
        if limit and limit < n:
            n = limit
            vfs.count("short_read")
        if vfs.eintr_every and vfs.seq % vfs.eintr_every == 0:
            # PEP 475: the call is interrupted and repeated.
            vfs.count("eintr")
        view = memoryview(b).cast("B")[:n]
        got = self._raw.readinto(view)
        if got:
            self._entry["data"] += bytes(view[:got])
        elif n:
            self._entry["eof"] = True
        vfs.after(self._task)
        return got

    def write(self, b):
        vfs = self._vfs
        if vfs.crashed:
            return len(b)
        data = bytes(b)
        fault = vfs.operation(self._task, "write", self._path, size=len(data))
        if self._armed:
            fault, self._armed = self._armed, None
            vfs.fire(fault, self._task, self._path)
        elif fault:
            # The call that meets the fault transfers a part of the data, the
            # next one reports the error.
            keep = int(len(data) * (fault.get("part") or 0))
            if not keep or fault["kind"] == "slow":
                vfs.fire(fault, self._task, self._path)
            elif fault["kind"] == "crash":
                self._raw.write(data[:keep])
                self._entry["written"] += keep
                vfs.fire(fault, self._task, self._path)
            else:
                self._armed = fault
                data = data[:keep]
        limit = vfs.chunk(self._task, "write")
        if limit and limit < len(data):
            data = data[:limit]
            vfs.count("short_write")
        n = self._raw.write(data)
        self._entry["written"] += n
        # No step here: nothing can come between write(2) and its accounting.
        return n

    def close(self):
        if self.closed:
            return
        vfs = self._vfs
        fault = None
        if not vfs.crashed and self._task is not None and vfs.sched.me() is self._task:
            fault = vfs.operation(self._task, "close", self._path)
        if isinstance(self._raw, io.FileIO) and not self._raw.closed:
            vfs.fds.pop(self._raw.fileno(), None)
        try:
            self._raw.close()
        finally:
            super().close()
            self._entry["closed"] = True
        if fault:
            vfs.fire(fault, self._task, self._path)


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        self._it = iter(())


class _PipeRaw(io.RawIOBase):
    """The file descriptor of a standard stream: what it accepts is delivered."""

    def __init__(self, vfs, task, label, bare=False):
        super().__init__()
        self._vfs = vfs
        self._task = task
        self.name = label
        self.mode = "wb"
        self._armed = None
        self._bare = bare
        self.delivered = bytearray()

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def write(self, b):
        vfs = self._vfs
        if vfs.crashed:
            return len(b)
        data = bytes(b)
        fault = vfs.operation(self._task, "stdout", self.name, size=len(data))
        if self._armed:
            fault, self._armed = self._armed, None
            vfs.fire(fault, self._task, None)
        elif fault:
            keep = int(len(data) * (fault.get("part") or 0))
            if not keep or fault["kind"] == "slow":
                vfs.fire(fault, self._task, None)
            elif fault["kind"] == "crash" or self._bare:
                self.delivered += data[:keep]
                vfs.fire(fault, self._task, None)
            else:
                self._armed = fault
                data = data[:keep]
        # Without a buffer Python forgets what a short write leaves.
        limit = None if self._bare else vfs.chunk(self._task, "stdout")
        if limit and limit < len(data):
            data = data[:limit]
            vfs.count("short_write")
        self.delivered += data
        return len(data)


def stream(vfs, task, label, encoding="utf-8"):
    """Standard output of a simulated process: a pipe, a terminal (`line`),
    or what `python -u` makes of it (`bare`)."""
    mode = vfs.opts.get("stdout")
    raw = _PipeRaw(vfs, task, label, mode == "bare")
    if mode == "bare":
        return io.TextIOWrapper(raw, encoding, "strict", "\n", write_through=True), raw
    if mode == "line":
        return io.TextIOWrapper(io.BufferedWriter(raw), encoding, "strict", "\n", line_buffering=True), raw
    return io.TextIOWrapper(io.BufferedWriter(raw), encoding, "strict", "\n"), raw


def elsewhere(host):
    """Another machine: names and numbers that a program may ask for."""
    import getpass
    import platform
    import socket
    import uuid

    name = f"host{host}"
    os.cpu_count = lambda: 1 + host % 64
    os.getppid = lambda: 1 + host % 900
    os.getlogin = getpass.getuser = lambda: f"user{host}"
    socket.gethostname = socket.getfqdn = platform.node = lambda *_a: name
    uuid.getnode = lambda *_a: host * 7919
    uname = os.uname_result(("Linux", name, str(host), f"#{host}", "x86_64"))
    os.uname = lambda: uname
    os.getloadavg = lambda: (host % 9 / 2, 0.0, 0.0)
    real = os._Environ.__getitem__

    def getitem(self, key):
        # Settings of Mau that nobody has documented.
        if isinstance(key, str) and key.upper().startswith("MAU"):
            return str(host % 5)
        return real(self, key)

    os._Environ.__getitem__ = getitem
    os._Environ.__contains__ = lambda self, key: self.get(key) is not None


def scatter(seed):
    """Another heap: the addresses of new objects come in another order."""
    import random

    rng = random.Random(seed)
    rest = []
    for _ in range(4000):
        n = rng.randrange(1, 40)
        rest.append(rng.choice([bytes(n * 10), [None] * n, {i: i for i in range(n % 6)}, str(n) * 3]))
    rng.shuffle(rest)
    del rest[rng.randrange(500, 3500) :]
    return rest


class Vfs:
    def __init__(self, root, scheduler, opts):
        self.root = os.path.realpath(root)
        self.sched = scheduler
        self.opts = opts
        self.crashed = False
        self.history = []
        self.counts = {}
        self.seq = 0
        self.per_task = {}
        self.faults = {}  # tid -> list
        self.edits = {}  # tid -> list
        self.fired = []
        self.eintr_every = opts.get("eintr", 0)
        self.listing = opts.get("listing")
        self.encoding = opts.get("encoding", "utf-8")
        self.clock = float(opts.get("clock", 1_700_000_000.0))
        self.skew = float(opts.get("clock_rate", 1e-6))
        self.serve = {}  # (tid, path) -> list of bytes to deliver, in order
        self.serve_log = []
        self.fds = {}  # descriptors opened by path -> path
        self.deep = 0

    # -- accounting ---------------------------------------------------------

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def now(self):
        return self.clock + self.skew * (
            sum(t.steps for t in self.sched.tasks) if self.sched.tasks else 0
        )

    def task(self):
        return self.sched.me()

    def rel(self, path):
        """Path relative to the scratch directory, or None if it is not inside."""
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        full = os.path.normpath(os.path.join(self.root, path))
        if full == self.root:
            return "."
        if full.startswith(self.root + os.sep):
            return full[len(self.root) + 1 :]
        if not os.path.isabs(path):
            return full  # climbs out of the scratch directory: still ours
        return None

    def operation(self, task, kind, path, **info):
        """Register an operation; return the fault that hits it, if any."""
        if task is None:
            return None
        if self.crashed:
            raise SimCrash()
        self.seq += 1
        self.count("op_" + kind)
        n_any = task.io_ops
        task.io_ops += 1
        per = self.per_task.setdefault(task.tid, {})
        n_kind = per.get(kind, 0)
        per[kind] = n_kind + 1
        n_path = per.get((kind, path), 0)
        per[(kind, path)] = n_path + 1
        self.history.append(
            {"i": self.seq, "t": task.tid, "op": kind, "path": path, "n": n_any, "s": task.steps, **info}
        )
        self.sched.io_step(task)
        for edit in self.edits.get(task.tid, ()):
            # "path" is the file to change; "on" restricts the triggering operation.
            rule = {"op": edit.get("op", "any"), "n": edit.get("n", 0)}
            if "on" in edit:
                rule["path"] = edit["on"]
            if not edit.get("_done") and _hits(rule, kind, path, n_any, n_kind, n_path):
                edit["_done"] = True
                self.apply_edit(edit)
        for fault in self.faults.get(task.tid, ()):
            if fault.get("_done"):
                continue
            if _hits(fault, kind, path, n_any, n_kind, n_path):
                if not fault.get("sticky"):
                    fault["_done"] = True
                return fault
        return None

    def after(self, task):
        """A second scheduling point once the operation is complete."""
        if task is not None:
            self.sched.io_step(task)

    def fire(self, fault, task, path):
        kind = fault["kind"]
        self.count("fault_" + kind)
        self.fired.append(
            {"t": task.tid, "kind": kind, "path": path, "step": task.steps, "io": task.io_ops - 1}
        )
        if kind == "slow":
            self.clock += fault.get("delay", 5.0)
            return
        if kind == "crash":
            self.crashed = True
            raise SimCrash()
        if kind in EXC:
            raise EXC[kind]()
        raise oserror(kind, path)

    def chunk(self, task, kind):
        c = self.opts.get("chunk")
        if not c:
            return None
        # A different size for every operation, all derived from the task.
        n = self.per_task.get(task.tid, {}).get(kind, 0) if task is not None else 0
        return 1 + (n * 7919 + c * 104729) % c

    # -- editor --------------------------------------------------------------

    def apply_edit(self, edit):
        self.count("edit_" + edit["how"])
        path = os.path.join(self.root, edit["path"])
        how = edit["how"]
        data = edit.get("data", "")
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        if how == "delete":
            try:
                if os.path.isdir(path):
                    _real["rmdir"](path)
                else:
                    _real["unlink"](path)
            except OSError:
                pass
        elif how == "replace":
            _makedirs(os.path.dirname(path))
            tmp = path + ".~edit"
            with _real["open"](tmp, "wb") as f:
                f.write(data)
            _real["replace"](tmp, path)
        elif how == "link":
            _makedirs(os.path.dirname(path))
            tmp = path + ".~edit"
            _real["symlink"](edit["target"], tmp)
            _real["replace"](tmp, path)
            return
        elif how == "inplace":
            with _real["open"](path, "wb") as f:
                f.write(data)
        elif how == "append":
            with _real["open"](path, "ab") as f:
                f.write(data)
        elif how == "truncate":
            try:
                with _real["open"](path, "r+b") as f:
                    f.truncate(edit.get("size", 0))
            except OSError:
                pass
        else:
            raise HarnessError(how)
        mtime = edit.get("mtime")
        if mtime is not None and how != "delete":
            try:
                _real["utime"](path, (mtime, mtime))
            except OSError:
                pass

    # -- intercepted functions -------------------------------------------------

    def install(self):
        me = self
        hooks = HOOKS

        def seen(path):
            """The acting task and the path as it is recorded; no path, no interest."""
            task = me.task()
            if task is None or isinstance(path, int):
                return task, None
            return task, me.rel(path)

        def sim_open(
            file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
            closefd=True, opener=None,
        ):  # fmt: skip
            task = me.task()
            if task is not None and isinstance(file, int) and file in me.fds:
                rel = me.fds[file]
            else:
                task, rel = seen(file)
            if task is None or rel is None:
                if encoding in (None, "locale") and task is not None and "b" not in mode:
                    encoding = me.encoding
                return _real["open"](
                    file, mode, buffering, encoding, errors, newline, closefd, opener
                )
            return me.open_file(
                task, rel, file, mode, buffering, encoding, errors, newline, opener, closefd
            )

        hooks["open"] = sim_open

        def sim_listdir(path="."):
            task, rel = seen(path)
            if rel is None:
                return _real["listdir"](path)
            fault = me.operation(task, "list", rel)
            if fault:
                me.fire(fault, task, rel)
            names = me.order(sorted(_real["listdir"](path)), rel)
            me.after(task)
            return names

        def sim_scandir(path="."):
            task, rel = seen(path)
            if rel is None:
                return _real["scandir"](path)
            fault = me.operation(task, "list", rel)
            if fault:
                me.fire(fault, task, rel)
            with _real["scandir"](path) as it:
                entries = sorted(it, key=lambda e: e.name)
            return SimScandir(me.order(entries, rel))

        hooks["listdir"] = sim_listdir
        hooks["scandir"] = sim_scandir

        def sim_stat(path, *a, **k):
            task, rel = seen(path)
            if rel is None:
                return _real["stat"](path, *a, **k)
            fault = me.operation(task, "stat", rel)
            if fault:
                me.fire(fault, task, rel)
            return _real["stat"](path, *a, **k)

        hooks["stat"] = sim_stat

        def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
            task, rel = seen(path)
            if rel is None:
                return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
            fault = me.operation(task, "open", rel, mode="os:%d" % flags)
            if fault:
                me.fire(fault, task, rel)
            fd = _real["os_open"](path, flags, mode, dir_fd=dir_fd)
            me.fds[fd] = rel
            return fd

        hooks["os_open"] = sim_os_open

        def sim_os_write(fd, data):
            task = me.task()
            if task is None or fd not in me.fds:
                return _real["os_write"](fd, data)
            if me.crashed:
                return len(data)
            fault = me.operation(task, "write", me.fds[fd], size=len(data))
            if fault:
                me.fire(fault, task, me.fds[fd])
            limit = me.chunk(task, "write")
            if limit and limit < len(data):
                data = bytes(data)[:limit]
                me.count("short_write")
            return _real["os_write"](fd, data)

        def sim_os_read(fd, n):
            task = me.task()
            if task is None or fd not in me.fds:
                return _real["os_read"](fd, n)
            fault = me.operation(task, "read", me.fds[fd])
            if fault:
                me.fire(fault, task, me.fds[fd])
            limit = me.chunk(task, "read")
            if limit and limit < n:
                n = limit
                me.count("short_read")
            return _real["os_read"](fd, n)

        def sim_os_close(fd):
            me.fds.pop(fd, None)
            return _real["os_close"](fd)

        def sim_fsync(fd):
            task = me.task()
            rel = me.fds.get(fd)
            if task is None or rel is None:
                return _real["fsync"](fd)
            fault = me.operation(task, "meta", rel, call="fsync", other=None)
            if fault:
                me.fire(fault, task, rel)

        hooks["os_write"] = sim_os_write
        hooks["os_read"] = sim_os_read
        hooks["os_close"] = sim_os_close
        hooks["fsync"] = sim_fsync

        def wrap_meta(name):
            real = _real[name]

            def meta(path, *a, **k):
                task, rel = seen(path)
                if rel is None:
                    return real(path, *a, **k)
                other = me.rel(a[0]) if a and isinstance(a[0], (str, os.PathLike)) else None
                fault = me.operation(task, "meta", rel, call=name, other=other)
                if fault:
                    me.fire(fault, task, rel)
                result = real(path, *a, **k)
                me.after(task)
                return result

            return meta

        for name in META:
            hooks[name] = wrap_meta(name)

        # -- clock, randomness, identity: properties of the simulated host
        up = 1_600_000_000.0
        hooks["time"] = lambda: me.now()
        hooks["time_ns"] = lambda: int(me.now() * 1e9)
        for name in ("monotonic", "perf_counter", "process_time"):
            hooks[name] = lambda: me.now() - up
        for name in ("monotonic_ns", "perf_counter_ns"):
            hooks[name] = lambda: int((me.now() - up) * 1e9)

        def present(name, at):
            real = _real[name]

            def calendar(*args):
                if len(args) <= at or args[at] is None:
                    now = me.now()
                    args = (*args[:at], now if name in ("localtime", "gmtime", "ctime") else _real["localtime"](now))
                return real(*args)

            return calendar

        for name, at in CALENDAR.items():
            hooks[name] = present(name, at)

        def sim_sleep(seconds):
            me.clock += max(0.0, seconds)
            task = me.task()
            if task is not None:
                me.sched.io_step(task)

        hooks["sleep"] = sim_sleep
        import random as _random

        host = int(self.opts.get("host", 1))
        entropy = _random.Random(host * 1000003 + 17)
        hooks["urandom"] = lambda n: entropy.randbytes(n)
        _random.seed(host)
        hooks["getpid"] = lambda: 1000 + host % 30000
        import locale as _locale

        _locale.getpreferredencoding = lambda *_a: me.encoding
        _locale.getencoding = lambda *_a: me.encoding
        if "host" in self.opts:
            elsewhere(host)
        if "heap" in self.opts:
            self.opts["_heap"] = scatter(int(self.opts["heap"]))
        for name, value in (self.opts.get("environ") or {}).items():
            if value is None:
                os.environ.pop(name, None)
            else:
                os.environ[name] = value
            if name == "TZ":
                _time_tzset()

    def order(self, names, rel):
        seed = self.listing
        if seed is None:
            return list(names)
        from sim.rng import stream

        names = list(names)
        stream("listing", seed, rel).shuffle(names)
        return names

    def open_file(self, task, rel, file, mode, buffering, encoding, errors, newline, opener, closefd=True):
        index = len(self.history)
        fault = self.operation(task, "open", rel, mode=mode)
        entry = self.history[index]
        entry.update(data=b"", written=0, closed=False, eof=False, ok=False)
        if fault and fault.get("phase") != "after":
            self.fire(fault, task, _shown(file))
        binary = "b" in mode
        rawmode = mode.replace("b", "").replace("t", "")
        served = self.serve.get((task.tid, rel))
        if served is not None and rawmode == "r":
            if not served:
                raise HarnessError(f"no recorded read left for {rel}")
            data = served.pop(0)
            if data is None:
                raise oserror("enoent", _shown(file))
            raw = _BytesRaw(data, _shown(file))
        else:
            raw = io.FileIO(file, rawmode, closefd, opener)
        entry["ok"] = True
        if fault and fault.get("phase") == "after":
            try:
                self.fire(fault, task, _shown(file))
            except BaseException:
                raw.close()
                raise
        faulty = FaultyRaw(self, task, rel, raw, entry)
        if isinstance(raw, io.FileIO):
            self.fds[raw.fileno()] = rel
        self.after(task)
        if binary and buffering == 0:
            return faulty
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 0, 1) else buffering
        if self.opts.get("bufsize"):
            size = self.opts["bufsize"]
        if "+" in mode:
            buffer = io.BufferedRandom(faulty, size)
        elif rawmode.startswith("r"):
            buffer = io.BufferedReader(faulty, size)
        else:
            buffer = io.BufferedWriter(faulty, size)
        if binary:
            return buffer
        if encoding in (None, "locale"):
            encoding = self.encoding
            self.count("locale_encoding_used")
        text = io.TextIOWrapper(buffer, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text


class _BytesRaw(io.RawIOBase):
    def __init__(self, data, name):
        super().__init__()
        self._b = io.BytesIO(data)
        self.name = name
        self.mode = "rb"

    def readable(self):
        return True

    def readinto(self, b):
        return self._b.readinto(b)

    def seekable(self):
        return True

    def seek(self, *a):
        return self._b.seek(*a)

    def tell(self):
        return self._b.tell()


def _time_tzset():
    import time

    time.tzset()


def _shown(file):
    try:
        return os.fspath(file)
    except TypeError:
        return str(file)


def _hits(rule, kind, path, n_any, n_kind, n_path):
    op = rule.get("op", "any")
    if op != "any" and op != kind:
        return False
    if "path" in rule:
        if rule["path"] != path or op == "any":
            return False
        return rule.get("n", 0) == n_path or (rule.get("sticky") and n_path >= rule.get("n", 0))
    n = n_any if op == "any" else n_kind
    return rule.get("n", 0) == n or (bool(rule.get("sticky")) and n >= rule.get("n", 0))
