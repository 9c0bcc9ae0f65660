"""Zygote: imports everything once, then forks one child per execution."""

import faulthandler
import mmap
import os
import pickle
import re
import select
import signal
import struct
import sys
import time

REPO = os.environ.get("MAUSIM_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prepare():
    """Import the code under test with the simulator's locks in place."""
    sys.dont_write_bytecode = True
    os.environ["COLUMNS"] = "80"
    sys.path[:0] = [REPO, os.path.join(HERE, "plugins")]
    from sim import sched, seam

    sched.patch_threading()
    seam.plant()
    import importlib
    import importlib.metadata
    import pkgutil

    try:
        importlib.metadata.version("mau")
    except importlib.metadata.PackageNotFoundError:
        # Not installed here: the source tree is enough.
        real_version = importlib.metadata.version
        importlib.metadata.version = lambda n: "5.0.0" if n == "mau" else real_version(n)
    import mau

    if not os.path.realpath(mau.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"mau imported from {mau.__file__}, not from {REPO}")
    for m in pkgutil.walk_packages(mau.__path__, "mau."):
        if m.name.endswith("test_helpers") or m.name.endswith("__main__"):
            continue
        importlib.import_module(m.name)
    import getpass, platform, socket, uuid  # noqa: F401, E401
    import encodings.ascii  # noqa: F401
    import encodings.cp1252  # noqa: F401
    import encodings.latin_1  # noqa: F401

    import simplugins  # noqa: F401

    memo_jinja()
    return os.path.dirname(os.path.realpath(mau.__file__))


COMPILED = {}


MARKED = re.compile("\u27e6\\d+\\|")


def renamed(code, table):
    """The same code with other string constants."""
    consts = tuple(
        renamed(c, table) if isinstance(c, type(code)) else table.get(c, c) if isinstance(c, str) else c for c in code.co_consts
    )
    return code.replace(co_consts=consts)


def memo_jinja():
    """Compiling a template is a pure function of its source and of the options
    of the environment; children start with the common ones compiled."""
    import jinja2
    import jinja2.environment as je

    real = je.Environment.compile

    def compile_(self, source, name=None, filename=None, raw=False, defer_init=False):
        if type(self) is not je.Environment or self.extensions or not isinstance(source, str):
            return real(self, source, name, filename, raw, defer_init)
        key = (
            source, name, filename, raw, defer_init, self.block_start_string,
            self.variable_start_string, self.comment_start_string, self.trim_blocks,
            self.lstrip_blocks, self.newline_sequence, self.keep_trailing_newline,
            self.optimized, self.autoescape, self.is_async, self.undefined,
            self.line_statement_prefix, self.line_comment_prefix, self.finalize,
        )  # fmt: skip
        try:
            found = COMPILED.get(key)
        except TypeError:
            return real(self, source, name, filename, raw, defer_init)
        if found is None:
            m = MARKED.match(source)
            if m and not raw:
                # The templates of C10 differ only in a number and their name.
                common = ("\u27e60|" + source[m.end() :], "NAME0", *key[2:])
                base = COMPILED.get(common)
                if base is None:
                    base = COMPILED[common] = real(self, common[0], "NAME0", filename, raw, defer_init)
                return renamed(base, {"\u27e60|": m.group(0), "NAME0": name})
            found = COMPILED[key] = real(self, source, name, filename, raw, defer_init)
        return found

    je.Environment.compile = compile_
    import simplugins

    for cls in (simplugins.SimHtml, simplugins.SimTex):
        env = jinja2.Environment(**cls.jinja_environment_options)
        for name, source in cls.default_templates.asflatdict().items():
            env.compile(source, name.removesuffix(cls.extension), None)
        from props.c10 import body

        env.compile(body(1), "x", None)


STALL = 10.0  # seconds of processor time in one step


def cpu_seconds(pid):
    with open(f"/proc/{pid}/stat", "rb") as f:
        fields = f.read().rpartition(b")")[2].split()
    return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")


def where_in(dump):
    """The innermost line of the code under test in a dump of the stacks."""
    text = os.pread(dump, 1 << 16, 0).decode("utf-8", "replace")
    for found in re.finditer(r'File "([^"]*)", line (\d+)', text):
        if found[1].startswith(REPO + "/"):
            return f"{found[1][len(REPO) + 1 :]}:{found[2]}"
    return "unknown"


def fork_execute(spec, scratch, timeout=120):
    """Run one execution in a child. Returns its result, or raises."""
    from sim import sched
    from sim.sched import HarnessError, Stalled

    if sched.BEAT is None:
        sched.BEAT = mmap.mmap(-1, 1)
    beat = sched.BEAT
    r, w = os.pipe()
    dump = os.memfd_create("dump")
    root = os.path.join(scratch, "w")
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(r)
            faulthandler.register(signal.SIGUSR1, file=dump, all_threads=True)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            from sim import child

            try:
                # The working directory is a property of the host too.
                here = os.path.join(root, spec.get("opts", {}).get("cwd", "d"))
                result = ("ok", child.execute(spec, here, REPO))
            except BaseException as exc:  # noqa: BLE001
                import traceback

                result = ("fail", "".join(traceback.format_exception(exc)))
            from sim.vfs import _real

            data = pickle.dumps(result, protocol=5)
            view = memoryview(struct.pack("!Q", len(data)) + data)
            while view:
                view = view[os.write(w, view[: 1 << 16]) :]
            status = 0
        finally:
            os._exit(status)
    os.close(w)
    deadline = time.monotonic() + timeout
    chunks = []
    seen, since = beat[0], 0.0
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise HarnessError("wall-clock timeout of one execution")
            ready, _, _ = select.select([r], [], [], min(left, 1.0))
            if not ready:
                # Busy, but not making steps.
                used = cpu_seconds(pid)
                if beat[0] != seen:
                    seen, since = beat[0], used
                elif used - since > STALL:
                    os.kill(pid, signal.SIGUSR1)
                    time.sleep(0.3)
                    os.kill(pid, signal.SIGKILL)
                    raise Stalled(where_in(dump))
                continue
            data = os.read(r, 1 << 20)
            if not data:
                break
            chunks.append(data)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
        os.close(dump)
        wipe(root)
    data = b"".join(chunks)
    if len(data) < 8 or len(data) != 8 + struct.unpack("!Q", data[:8])[0]:
        raise HarnessError("the child died without an answer")
    kind, value = pickle.loads(data[8:])
    if kind != "ok":
        raise HarnessError(value)
    return value


def wipe(root):
    """Remove the scratch directory of one execution (never follows links)."""
    if not os.path.isdir(root) or os.path.islink(root):
        return
    for base, dirs, files in os.walk(root, topdown=False):
        for name in files:
            os.unlink(os.path.join(base, name))
        for name in dirs:
            path = os.path.join(base, name)
            if os.path.islink(path):
                os.unlink(path)
            else:
                os.rmdir(path)
    os.rmdir(root)
