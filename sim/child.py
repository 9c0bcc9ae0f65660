"""One simulated execution. Runs in a forked child of the zygote: the process
under test is born with the code imported and nothing executed, and dies with
the execution."""

import gc
import io
import logging
import os
import re
import sys
import threading

from sim import canon, sched
from sim.sched import BudgetExceeded, HarnessError, Scheduler, SimCrash, SimDeadlock, Task
from sim.vfs import EXC, Vfs, _real


# Log records carry the time of the simulated clock.
STAMP = re.compile(r"^\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\] ", re.M)


def encode(text):
    return text.encode("utf-8", "surrogateescape")


def decode(data):
    return data.decode("utf-8", "surrogateescape")


def write_tree(root, files, mtime):
    for rel, text in files.items():
        path = os.path.join(root, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(text, dict) and "link" in text:
            os.symlink(text["link"], path)
            continue
        if text is None:
            os.makedirs(path, exist_ok=True)
            continue
        with _real["open"](path, "wb") as f:
            f.write(encode(text))
        _real["utime"](path, (mtime, mtime))


def read_tree(root):
    out = {}
    for base, dirs, names in os.walk(root):
        dirs.sort()
        for name in sorted(names):
            path = os.path.join(base, name)
            rel = os.path.relpath(path, root)
            if os.path.islink(path):
                out[rel] = {"link": os.readlink(path)}
                continue
            with _real["open"](path, "rb") as f:
                out[rel] = decode(f.read())
        for name in dirs:
            path = os.path.join(base, name)
            if os.path.islink(path):
                out[os.path.relpath(path, root)] = {"link": os.readlink(path)}
            elif not os.listdir(path):
                out[os.path.relpath(path, root)] = None
    return out


class World:
    def __init__(self, spec, root, repo):
        self.spec = spec
        self.root = root
        self.repo = repo
        self.shared = {}
        self.configs = {}
        self.jobs = {}
        self.steps = {}
        self.ios = {}
        self.lines = {}
        self.sched = Scheduler([os.path.join(repo, "mau") + os.sep])
        self.vfs = Vfs(root, self.sched, spec.get("opts", {}))
        self.keep = []
        self.visits = {}
        self.owned = []  # caller-owned objects and their initial form
        self.trace = []
        self.points = []
        self.total_steps = 0

    # -- building blocks -----------------------------------------------------

    def resolve(self, value):
        """Replace {"$obj": name} by an object of the plugins."""
        if isinstance(value, dict):
            if set(value) == {"$obj"}:
                import simplugins

                return getattr(simplugins, value["$obj"])
            return {k: self.resolve(v) for k, v in value.items()}
        if isinstance(value, list):
            return [self.resolve(v) for v in value]
        return value

    def config(self, job):
        """The configuration mapping of a job; jobs can share one."""
        name = job.get("config_ref")
        if name is None:
            cfg = self.resolve(job.get("config", {}))
        else:
            if name not in self.configs:
                self.configs[name] = self.resolve(self.spec["configs"][name])
            cfg = self.configs[name]
        return cfg

    def own(self, label, obj):
        for _, o, _ in self.owned:
            if o is obj:
                return
        self.owned.append((label, obj, canon.plain(obj)))

    def check_owned(self):
        return [label for label, obj, before in self.owned if canon.plain(obj) != before]

    def visitor(self, name):
        import simplugins
        from mau.visitors.base_visitor import BaseVisitor
        from mau.visitors.jinja_visitor import JinjaVisitor
        from mau.visitors.yaml_visitor import YamlVisitor

        if name.startswith("count:"):
            return self.counting(self.visitor(name[6:]))
        return {
            "yaml": YamlVisitor,
            "base": BaseVisitor,
            "jinja": JinjaVisitor,
            "html": simplugins.SimHtml,
            "tex": simplugins.SimTex,
        }[name]

    def counting(self, base):
        """A visitor plugin that notes its visits of nodes tagged for debugging."""
        visits = self.visits

        class Counting(base):
            def visit(self, node, **kwargs):
                if node is not None and "debug" in node.arguments.internal_tags:
                    where = canon.where(node.info)
                    visits.setdefault(id(self.message_handler), []).append([node.type, where])
                return super().visit(node, **kwargs)

        return Counting

    def handler(self, job, log):
        from mau.message import BaseMessageHandler, LogMessageHandler

        kind = job.get("handler", "record")
        world = self

        class Recorder(BaseMessageHandler):
            type = "recorder"

            def _add(self, name, message):
                task = world.sched.me()
                log.append([name, canon.message(message), canon.where(message)])
                if task is not None:
                    world.sched.io_step(task)

            def process_lexer_error(self, message):
                self._add("lexer", message)

            def process_parser_error(self, message):
                self._add("parser", message)

            def process_visitor_error(self, message):
                self._add("visitor", message)

            def process_visitor_debug(self, message):
                self._add("debug", message)

        if kind == "record":
            return Recorder()

        # A log handler with a sink.
        opts = job.get("log", {})
        logger = logging.Logger("job-" + job["id"])
        logger.setLevel(getattr(logging, opts.get("level", "DEBUG")))
        task = self.sched.me()

        class Sink(logging.Handler):
            def emit(self, record):
                try:
                    text = canon.scrub(self.format(record))
                    fault = world.vfs.operation(task, "log", None, size=len(text))
                    if fault:
                        world.vfs.fire(fault, task, None)
                    log.append(["log", record.levelname, text])
                except Exception:
                    self.handleError(record)

            def handleError(self, record):
                world.vfs.count("log_record_lost")

        logger.addHandler(Sink())
        return LogMessageHandler(logger, **opts.get("args", {}))

    # -- jobs ------------------------------------------------------------------

    def environment(self, job):
        from mau.environment.environment import Environment

        cfg = self.config(job)
        self.own("config of " + job["id"], cfg)
        env = Environment.from_dict(cfg, "mau")
        variables = self.resolve(job.get("vars", {}))
        if variables:
            self.own("variables of " + job["id"], variables)
            env.dupdate(variables)
        if job.get("base_env"):
            # The caller keeps an environment and gives a copy of it.
            self.own("environment of " + job["id"], env)
            self.keep.append(env)
            env = Environment.from_environment(env)
        return env

    def text_of(self, job):
        if "file" in job:
            with open(job["file"], "r", encoding="utf-8") as f:
                return f.read()
        return job["text"]

    def job_compile(self, job, out):
        attempts = job.get("attempts", 1)
        out["attempts"] = []
        tokens = document = mau = None
        for k in range(attempts):
            o = {"stage": "start", "out": []}
            log = []
            if k:
                # The fault is gone.
                self.clear_faults(self.sched.me())
                for edit in job.get("repair", ()):
                    self.vfs.apply_edit(edit)
            reuse = job.get("reuse") if k else None
            try:
                tokens, document, mau = self.compile_once(
                    job, o, log, reuse, tokens, document, mau
                )
                o["status"] = "ok"
            except (SimCrash, BudgetExceeded, SimDeadlock, HarnessError):
                raise
            except BaseException as exc:  # noqa: BLE001
                o["error"] = canon.error(exc)
                o["status"] = o["error"][0]
                o["where"] = canon.where(exc.message) if o["status"] == "mau-error" else None
                o["at"] = o["stage"]
                if isinstance(exc, Exception):
                    o["cause"] = type(exc.__cause__).__name__ if exc.__cause__ else None
                tokens = o.pop("_tokens", tokens)
                document = o.pop("_document", document)
                mau = o.pop("_mau", mau)
            for name in ("_tokens", "_document", "_mau"):
                o.pop(name, None)
            o["log"] = log
            env = o.pop("_env", None)
            if env is not None:
                o["env"] = canon.plain(env.asflatdict())[1]
            out["attempts"].append(o)
            out.update(o)
            if o["status"] == "ok" and not (job.get("force") and k == 0):
                break

    def compile_once(self, job, o, log, reuse, tokens, document, mau):
        from mau import Mau

        handler = self.handler(job, log)
        self.keep.append(handler)
        o["visits"] = self.visits.setdefault(id(handler), [])
        if reuse == "visitor" and document is not None:
            env = mau.environment
        elif job.get("bare"):
            # Without an environment.
            mau = Mau(handler)
            env = mau.environment
        else:
            env = self.environment(job)
        o["_env"] = env
        if job.get("bare"):
            pass
        elif not (reuse == "same" and mau is not None):
            mau = Mau(handler, env)
        else:
            mau.environment = env
            mau.message_handler = handler
        o["_mau"] = mau
        source = job.get("source", job.get("file", "main.mau"))
        visitors = [self.visitor(v) for v in job.get("visitors", ["base"])]
        if job.get("style") == "process":
            text = self.text_of(job)
            for v in visitors[:1]:
                o["out"].append(canon.plain(mau.process(v, text, source)))
            o["stage"] = "done"
            return tokens, document, mau
        if not (reuse in ("parser", "visitor") and tokens is not None):
            o["stage"] = "lexer"
            buffer = mau.init_text_buffer(self.text_of(job), source)
            tokens = mau.run_lexer(buffer).tokens
            o["_tokens"] = tokens
        if job.get("tokens"):
            o["tokens"] = canon.plain(tokens)
        if not (reuse == "visitor" and document is not None):
            o["stage"] = "parser"
            parser = mau.run_parser(tokens)
            document = parser.output.document
            o["_document"] = document
            o["includes"] = [
                [c.caller_uri, c.callee_uri, canon.plain(c.call_arguments)[1],
                 c.info.context.start_line if c.info else None,
                 c.info.context.source if c.info else None]
                for c in parser.output.include_calls
            ]  # fmt: skip
            o["toc"] = canon.plain(parser.output.toc) if job.get("tree") else None
        o["stage"] = "visitor"
        for v in visitors:
            o["out"].append(canon.plain(mau.run_visitor(v, document)))
        if job.get("tree"):
            o["tree"] = canon.plain(document)
        o["stage"] = "done"
        return tokens, document, mau

    def clear_faults(self, task):
        self.vfs.faults.pop(task.tid, None)
        self.vfs.edits.pop(task.tid, None)
        keep = {task.budget}
        task.actions = {}
        task.pending = sorted(p for p in set(task.switches) | keep if p > task.steps)
        task.next_event = task.pending[0] if task.pending else task.budget

    def job_share(self, job, out):
        """Lex and parse; keep tokens, tree and environment for later jobs."""
        from mau import Mau

        log = []
        mau = Mau(self.handler(job, log), self.environment(job))
        buffer = mau.init_text_buffer(self.text_of(job), job.get("source", "main.mau"))
        tokens = mau.run_lexer(buffer).tokens
        self.shared[job["name"]] = {"tokens": tokens, "job": job}
        if job.get("to", "tree") == "tree":
            parser = mau.run_parser(tokens)
            self.shared[job["name"]].update(
                document=parser.output.document, mau=mau, parser=parser
            )
        out["status"] = "ok"

    def job_render(self, job, out):
        from mau import Mau

        item = self.shared[job["name"]]
        log = []
        handler = self.handler(job, log)
        try:
            if job.get("own_env"):
                mau = Mau(handler, self.environment(job))
            elif job.get("own_mau"):
                mau = Mau(handler, item["mau"].environment)
            else:
                mau = item["mau"]
            node = item["document"] if job.get("part") != "toc" else item["parser"].output.toc
            visitor = self.visitor(job["visitor"])
            if job.get("instance"):
                # The caller keeps one visitor and uses it again and again.
                key = (job["instance"], job["visitor"])
                made = item.setdefault("instances", {})
                if key not in made:
                    made[key] = visitor(item["mau"].message_handler, item["mau"].environment)
                out["out"] = canon.plain(made[key].process(node))
            else:
                out["out"] = canon.plain(mau.run_visitor(visitor, node))
            out["status"] = "ok"
        finally:
            out["log"] = log

    def job_reparse(self, job, out):
        from mau import Mau

        item = self.shared[job["name"]]
        log = []
        env = self.environment(dict(item["job"], id=job["id"]))
        mau = Mau(self.handler(job, log), env)
        try:
            parser = mau.run_parser(item["tokens"])
            out["tree"] = canon.plain(parser.output.document)
            out["includes"] = canon.plain(parser.output.include_calls)
            out["status"] = "ok"
        finally:
            out["log"] = log
            out["env"] = canon.plain(env.asflatdict())[1]

    def job_dump(self, job, out):
        item = self.shared.get(job["name"], {})
        out["tokens"] = canon.public(canon.plain(item.get("tokens")))
        if "document" in item:
            out["tree"] = canon.public(canon.plain(item["document"]))
            out["toc"] = canon.public(canon.plain(item["parser"].output.toc))
            out["env"] = canon.plain(item["mau"].environment.asflatdict())[1]
            out["includes"] = canon.public(canon.plain(item["parser"].output.include_calls))
        out["status"] = "ok"

    def job_envload(self, job, out):
        import mau
        from mau.environment.environment import Environment

        env = Environment.from_dict(self.resolve(job.get("base", {})))
        other = Environment.from_dict(self.resolve(job.get("base", {})))
        out["before"] = canon.plain(env.asflatdict())[1]
        out["calls"] = []
        try:
            for kind, items, namespace in job["calls"]:
                given = list(items)
                record = {"kind": kind, "h": [len(self.vfs.history), None]}
                out["calls"].append(record)
                try:
                    if kind == "files":
                        mau.load_environment_files(env, items, namespace)
                    else:
                        mau.load_environment_variables(env, items, namespace)
                    record["status"] = "ok"
                except (SimCrash, BudgetExceeded, SimDeadlock, HarnessError):
                    raise
                except BaseException as exc:  # noqa: BLE001
                    record["status"] = "error"
                    record["error"] = canon.error(exc)
                    record["config_error"] = isinstance(exc, mau.ConfigurationError)
                    record["text"] = canon.scrub(str(exc))
                record["h"][1] = len(self.vfs.history)
                record["after"] = canon.plain(env.asflatdict())[1]
                record["items_intact"] = items == given
            out["status"] = "ok"
        finally:
            out["other"] = canon.plain(other.asflatdict())[1]

    def job_cli(self, job, out):
        """A process of its own: the command line."""
        import sim.vfs
        from mau import cli

        task = self.sched.me()
        stdout, pipe = sim.vfs.stream(
            self.vfs, task, "<stdout>", job.get("stdout_encoding", "utf-8")
        )
        stderr = io.StringIO()
        self.keep.append(stdout)
        # A new process: logging is not configured yet.
        logging.root.handlers.clear()
        logging.root.setLevel(logging.WARNING)
        saved = sys.stdout, sys.stderr, sys.argv
        sys.stdout, sys.stderr, sys.argv = stdout, stderr, ["mau", *job["argv"]]
        code = None
        try:
            try:
                cli.main()
                code = 0
            except SystemExit as exc:
                if exc.code is None:
                    code = 0
                elif isinstance(exc.code, int):
                    code = exc.code
                else:
                    code = 1
                out["sysexit"] = True
            except (SimCrash, BudgetExceeded, SimDeadlock, HarnessError):
                raise
            except KeyboardInterrupt as exc:
                out["error"] = canon.error(exc)
                code = 130
            except BaseException as exc:  # noqa: BLE001
                out["error"] = canon.error(exc)
                code = 1
            # Interpreter shutdown.
            try:
                stdout.flush()
            except OSError:
                if code == 0:
                    code = 120
            except KeyboardInterrupt:
                code = 130
            except MemoryError:
                code = 120
            except SystemExit:
                code = 120
            out["exit"] = code
            out["status"] = "exit"
        except SimCrash:
            out["exit"] = "crash"
            out["status"] = "crash"
        finally:
            sys.stdout, sys.stderr, sys.argv = saved
            out["stdout"] = STAMP.sub("[T] ", canon.scrub(decode(bytes(pipe.delivered))))
            out["stderr"] = stderr.getvalue()[-2000:]

    # -- execution ---------------------------------------------------------------

    def run_job(self, job, out):
        try:
            getattr(self, "job_" + job["kind"])(job, out)
        except SimCrash:
            out["status"] = "crash"
        except BudgetExceeded as exc:
            out["status"] = "budget"
            out["error"] = ["budget", str(exc)]
        except SimDeadlock as exc:
            out["status"] = "deadlock"
            out["error"] = ["deadlock", str(exc)]
        except HarnessError:
            raise
        except BaseException as exc:  # noqa: BLE001
            out["error"] = canon.error(exc)
            out["status"] = out["error"][0]
            out["where"] = canon.where(exc.message) if out["status"] == "mau-error" else None

    def action(self, act):
        kind = act["kind"]

        def go(task, where):
            if act.get("_done"):
                return
            act["_done"] = True
            if kind == "edit":
                self.vfs.apply_edit(act["edit"])
                return
            if kind == "check_owned":
                bad = self.check_owned()
                if bad:
                    self.owned_bad.append([task.tid, task.steps, bad])
                return
            self.vfs.count("fault_" + kind)
            self.vfs.fired.append(
                {"t": task.tid, "kind": kind, "step": task.steps,
                 "path": None, "line": _loc(where)}
            )  # fmt: skip
            if kind == "crash":
                self.vfs.crashed = True
            raise EXC[kind]()

        return go

    owned_bad = ()

    def run_phase(self, phase):
        if "edits" in phase:
            for edit in phase["edits"]:
                self.vfs.apply_edit(edit)
            return
        tasks = []
        self.vfs.per_task = {}
        self.vfs.faults = {}
        self.vfs.edits = {}
        self.vfs.serve = {}
        for tid, job in enumerate(phase["jobs"]):
            out = self.jobs[job["id"]] = {}
            actions = {}
            for act in job.get("acts", ()):
                actions.setdefault(act["step"], []).append(self.action(dict(act)))
            switches = {s: t for j, s, t in phase.get("switches", ()) if j == tid}
            self.vfs.faults[tid] = [dict(f) for f in job.get("faults", ())]
            self.vfs.edits[tid] = [dict(f) for f in job.get("edits", ())]
            for path, datas in job.get("serve", {}).items():
                self.vfs.serve[(tid, path)] = [
                    None if d is None else encode(d) for d in datas
                ]
            tasks.append(
                Task(
                    tid,
                    lambda job=job, out=out: self.run_job(job, out),
                    switches=switches,
                    actions=actions,
                    budget=job.get("budget", self.spec.get("budget")),
                )
            )
        if self.spec.get("lines"):
            for task in tasks:
                task.lines = {}
        start = len(self.vfs.history)
        fired0 = len(self.vfs.fired)
        trace0 = len(self.sched.trace)
        self.sched.run(tasks, phase.get("first", 0))
        for h in self.vfs.history[start:]:
            h["t"] = phase["jobs"][h["t"]]["id"]
        for f in self.vfs.fired[fired0:]:
            f["job"] = phase["jobs"][f["t"]]["id"]
        for t in self.sched.trace[trace0:]:
            self.trace.append(t)
        for task, job in zip(tasks, phase["jobs"]):
            self.steps[job["id"]] = task.steps
            self.total_steps += task.steps
            self.ios[job["id"]] = task.io_ops
            if task.lines is not None:
                self.lines[job["id"]] = {
                    "steps": task.steps,
                    "lines": [seen[1] for seen in task.lines.values()],
                    "io": task.io_steps,
                }
            if task.error is not None:
                raise HarnessError(f"job {job['id']}: {task.error!r}") from task.error

    def run(self):
        self.owned_bad = []
        if "root_level" in self.spec.get("opts", {}):
            # What an application may configure for all of its logging.
            logging.root.setLevel(getattr(logging, self.spec["opts"]["root_level"]))
        if self.spec.get("own_defaults"):
            import mau.parsers.document_parser as dp
            import simplugins

            for name in ("DEFAULT_STYLE_ALIASES", "DEFAULT_ARGUMENT_ALIASES"):
                if hasattr(dp, name):
                    self.own(name, getattr(dp, name))
            import mau.parsers.text_parser as tp
            from mau.visitors.jinja_visitor import JinjaVisitor

            if hasattr(tp, "MAP_STYLES"):
                self.own("MAP_STYLES", tp.MAP_STYLES)
            self.own("default templates of JinjaVisitor", JinjaVisitor.default_templates)
            self.own("join_with of JinjaVisitor", JinjaVisitor.join_with)
            self.own("jinja options of JinjaVisitor", JinjaVisitor.jinja_environment_options)
            for name, cls in simplugins.PROVIDERS.items():
                self.own("templates of provider " + name, cls.templates)
            for cls in (simplugins.SimHtml, simplugins.SimTex):
                self.own("default templates of " + cls.__name__, cls.default_templates)
                self.own("join_with of " + cls.__name__, cls.join_with)
                self.own("jinja options of " + cls.__name__, cls.jinja_environment_options)
        for phase in self.spec["phases"]:
            self.run_phase(phase)
        if self.spec.get("own_defaults") or self.spec.get("check_owned"):
            bad = self.check_owned()
            if bad:
                self.owned_bad.append([None, None, bad])


def _loc(where):
    if where is None:
        return None
    code, line = where
    name = code.co_filename
    i = name.rfind("/mau/")
    return f"{name[i + 1 :]}:{line}"


def execute(spec, root, repo):
    """Run a specification; returns plain data."""
    gc.disable()
    threading.excepthook = lambda *a: None
    sys.unraisablehook = lambda *a: None
    os.environ["COLUMNS"] = "80"
    os.makedirs(root, exist_ok=True)
    root = os.path.realpath(root)
    canon.ROOT = root
    write_tree(root, spec.get("files", {}), spec.get("mtime", 1_690_000_000))
    os.chdir(root)
    if "providers" in spec:
        import simplugins

        for name, templates in spec["providers"].items():
            simplugins.PROVIDERS[name].templates = templates
    if "defaults" in spec:
        import simplugins
        from mau.environment.environment import Environment
        from mau.visitors.jinja_visitor import JinjaVisitor

        for name, templates in spec["defaults"].items():
            cls = {"html": simplugins.SimHtml, "tex": simplugins.SimTex, "jinja": JinjaVisitor}[name]
            cls.default_templates = Environment.from_dict(templates)
    if spec.get("opts", {}).get("plugin_order") is not None:
        shuffle_entry_points(spec["opts"]["plugin_order"])
    world = World(spec, root, repo)
    sched.ACTIVE = world.sched
    world.vfs.install()
    world.sched.install()
    world.run()
    sys.monitoring.set_events(sched.TOOL, 0)
    v = world.vfs
    result = {
        "jobs": world.jobs,
        "steps": world.steps,
        "ios": world.ios,
        "total_steps": world.total_steps,
        "lines": world.lines,
        "fired": v.fired,
        "counts": v.counts,
        "trace": world.trace,
        "points": world.sched.trace_points,
        "crashed": v.crashed,
        "owned_bad": world.owned_bad,
        "clock": v.now() - float(spec.get("opts", {}).get("clock", 1_700_000_000.0)),
        "history": [
            {k: (decode(x) if isinstance(x, bytes) else x) for k, x in h.items()}
            for h in v.history
        ],
    }
    if spec.get("snapshot"):
        result["files"] = read_tree(root)
    return result


def shuffle_entry_points(seed):
    import importlib.metadata as md

    from sim.rng import stream

    real = md.entry_points

    def entry_points(**params):
        found = real(**params)
        items = sorted(found, key=lambda e: (e.group, e.name, e.value))
        stream("plugins", seed).shuffle(items)
        return type(found)(items)

    md.entry_points = entry_points
