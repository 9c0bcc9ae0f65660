"""What the checks share."""

import json

from gen import docs

FILE_FAULTS = {
    "open": ["enoent", "eacces", "eio", "emfile", "enomem", "eisdir", "estale", "enotdir", "eloop"],
    "read": ["eio", "estale", "enomem", "eisdir", "etimedout"],
    "list": ["eacces", "eio", "emfile", "estale", "enotdir"],
    "stat": ["eacces", "eio", "enomem", "estale"],
    "write": ["enospc", "eio", "edquot", "erofs"],
    "close": ["enospc", "eio", "edquot"],
    "stdout": ["epipe", "eio", "enospc"],
    "meta": ["eacces", "eio", "enospc", "erofs"],
}
ASYNC = ["interrupt", "memory", "sysexit"]
VISITORS = {"html": "simplugins:SimHtml", "tex": "simplugins:SimTex", "yaml": "core:YamlVisitor"}

OUTCOME = ("status", "exit", "stdout", "out", "includes", "toc", "tree", "env", "log", "error", "where", "calls")


def outcome(job, skip=()):
    return {k: job.get(k) for k in OUTCOME if k not in skip}


def diff(a, b, path=""):
    """The first difference of two plain values, as a short text."""
    if type(a) is not type(b):
        return f"{path}: {short(a)} != {short(b)}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k}: only in the first ({short(a[k])})"
        for k in b:
            if k not in a:
                return f"{path}.{k}: only in the second ({short(b[k])})"
        for k in a:
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}: {short(a[len(b):] or b[len(a):])}"
        return None
    if a != b:
        if isinstance(a, str) and len(a) + len(b) > 120:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return f"{path} at {i}: ...{a[max(0, i - 40) : i + 60]!r} != ...{b[max(0, i - 40) : i + 60]!r}"
        return f"{path}: {short(a)} != {short(b)}"
    return None


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def small(rng):
    """Sizes that keep one execution fast; now and then a big one."""
    return rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8] if rng.random() < 0.95 else [12])


def project(rng, **kw):
    kw.setdefault("size", small(rng))
    kw.setdefault("depth", rng.choice([0, 1, 1, 2]))
    return docs.project(rng, **kw)


def sibling(rng, p, k):
    """The same project but for one thing: what an incomplete cache key mixes up."""
    p = {**p, "files": dict(p["files"]), "config": json.loads(json.dumps(p["config"])), "vars": dict(p["vars"])}
    cfg = p["config"]
    parser = cfg.get("parser", {})
    templates = cfg.get("visitor", {}).get("templates", {})
    kinds = ["vars", "vars", "site", "text", "rename", "parser"]
    kinds += ["aliases"] * (2 if "aliases" in parser else 0)
    kinds += ["custom"] * (2 if "custom" in templates else 0)
    kinds += ["sources"] * (2 if {"paths", "providers", "prefixes"} & set(templates) else 0)
    kind = rng.choice(kinds)
    if kind == "vars":
        name = rng.choice(sorted(p["vars"]) or docs.VARS[:1]) if rng.random() < 0.7 else rng.choice(docs.VARS)
        if name in p["vars"] and rng.random() < 0.2:
            del p["vars"][name]
        else:
            p["vars"][name] = rng.choice([v for v in docs.VALUES[:6] if v != p["vars"].get(name)])
    elif kind == "site":
        cfg["site"] = rng.choice([x for x in ("S1", "S2", "S3") if x != cfg.get("site")])
    elif kind in ("text", "rename"):
        new = p["main"].removesuffix(".mau") + f"-{k}.mau"
        text = p["files"][p["main"]]
        if kind == "text":
            lines = text.split("\n")
            i = rng.randrange(len(lines))
            r = rng.random()
            if r < 0.6:
                text = mutate(rng, text)
            elif r < 0.8:
                lines.insert(i, "")
                text = "\n".join(lines)
            else:
                lines[i:i] = [lines[i], ""]
                text = "\n".join(lines)
        p["files"][new] = text
        p["main"] = new
    elif kind == "parser":
        t = cfg.setdefault("parser", {})
        name = rng.choice(["header_internal_id_function", "footnote_unique_id_function", "document_wrapper", "source_highlight_style_aliases"])
        if name in t:
            del t[name]
        else:
            t[name] = {
                "header_internal_id_function": {"$obj": "header_id"},
                "footnote_unique_id_function": {"$obj": "footnote_id"},
                "document_wrapper": {"$obj": "SimWrapper"},
                "source_highlight_style_aliases": {"+": "minus", "hot": "cold", "x": "y"},
            }[name]
    elif kind == "aliases":
        name = rng.choice(sorted(parser["aliases"]))
        alias = dict(parser["aliases"][name])
        r = rng.random()
        if r < 0.3:
            alias["subtype"] = rng.choice(["quote", "note", "own"])
        elif r < 0.6:
            alias["args"] = {**alias.get("args", {}), "k1": rng.choice(["w1", "w2"]), "new": "9"}
        elif r < 0.8:
            alias.pop(rng.choice(sorted(alias)))
        else:
            alias["names"] = rng.choice([["k2"], ["other", "who"], []])
        parser["aliases"][name] = alias
    elif kind == "custom":
        t = templates["custom"]
        same = [n for n in sorted(t) if isinstance(t[n], str) and t[n].startswith("<C")]
        if same and rng.random() < 0.5:
            # Nothing differs but a letter.
            name = rng.choice(same)
            t[name] = "<K" + t[name][2:]
            return p
        name = rng.choice(["paragraph.html", "text.html", "header.html", "header.note.html", "style.html"])
        t[name] = f"<OTHER {rng.randrange(9)}>" + ("{{ value }}" if name.startswith("text") else "{{ content }}")
        if rng.random() < 0.3:
            t.pop("block", None)
    elif kind == "sources":
        name = rng.choice(sorted({"paths", "providers", "prefixes"} & set(templates)))
        now = templates[name]
        r = rng.random()
        if len(now) > 1 and r < 0.6:
            templates[name] = now[::-1] if r < 0.4 else now[1:]
        elif name == "paths":
            new = now[0] + f"-{k}"
            for f, text in list(p["files"].items()):
                if f.startswith(now[0] + "/") and rng.random() < 0.8:
                    p["files"][new + f[len(now[0]):]] = text.replace("<", "<again ", 1)
            p["files"].setdefault(new + "/README.md", "None\n")
            templates[name] = [new] + now[1:]
        elif name == "providers":
            templates[name] = rng.sample(["alpha", "beta", "gamma"], rng.randint(1, 3))
        else:
            templates[name] = rng.sample(["book", "blog"], rng.randint(1, 2))
    return p


def visitors(rng):
    return rng.choice([["html"], ["html"], ["base"], ["html", "base"], ["html", "tex"], ["yaml"], ["base", "html", "tex"], ["yaml", "html"], ["html", "base"]] if rng.random() < 0.98 else [["jinja"]])


def job_of(rng, proj, jid, **kw):
    job = {
        "id": jid,
        "kind": "compile",
        "file": proj["main"],
        "config": proj["config"],
        "vars": proj["vars"],
        "visitors": visitors(rng),
    }
    if rng.random() < 0.15:
        job["style"] = "process"
        job["visitors"] = job["visitors"][:1]
    if rng.random() < 0.2:
        job["handler"] = "log"
        job["log"] = {
            "level": rng.choice(["DEBUG", "INFO", "WARNING"]),
            "args": rng.choice([{}, {"prefix": "P: "}, {"debug_logging_level": 10}]),
        }
    job.update(kw)
    return job


def config_text(rng, cfg):
    """A configuration file: in one line, or in many that make sense alone."""
    import json

    import yaml

    cfg = json.loads(json.dumps(cfg))
    if rng.random() < 0.5:
        return json.dumps(cfg) + "\n"
    return yaml.safe_dump(cfg, sort_keys=False, allow_unicode=rng.random() < 0.5)


def cli_argv(rng, proj, files, out=None, fmt=None):
    """A command line for a project; configuration goes to a file."""
    import json

    argv = ["-i", proj["main"]]
    cfg = {k: v for k, v in proj["config"].items()}
    if "$obj" not in json.dumps(cfg) and (cfg or rng.random() < 0.3):
        files["conf.yaml"] = config_text(rng, cfg)
        argv += ["-c", "conf.yaml"]
    else:
        proj["config"] = {}
    for k, v in proj["vars"].items():
        if "=" not in v:
            argv += ["-v", f"{k}={v}"]
    fmt = fmt or rng.choice(["html", "html", "tex", "yaml"])
    argv += ["-t", VISITORS[fmt]]
    if out is not None:
        argv += ["-o", out]
    return argv


def opts(rng, benign=True):
    """Legal behaviour of the operating system that must not matter."""
    o = {}
    if rng.random() < 0.4:
        o["chunk"] = rng.choice([1, 2, 3, 7, 16, 100])
    if rng.random() < 0.3:
        o["bufsize"] = rng.choice([1, 2, 8, 64, 1 << 16])
    if rng.random() < 0.2:
        o["eintr"] = rng.choice([1, 3])
    if rng.random() < 0.3:
        o["listing"] = rng.randrange(1000)
    if rng.random() < 0.15:
        o["stdout"] = rng.choice(["line", "bare"])
    return o


def place(ppm, n):
    """A position 0..n-1 from parts per million."""
    return min(n - 1, ppm * n // 1_000_000) if n > 0 else 0


def nest(rng, files, main, prefix):
    """Blocks in blocks and files in files, many levels deep."""
    n = rng.choice([4, 8, 12, 16, 20, 24])
    kinds = rng.choice([["block"], ["block"], ["file"], ["block", "file"], ["block", "list", "file"]])
    chars = list("abcdefghijklmnopqrstuvwxyz")
    rng.shuffle(chars)
    text = rng.choice(["text", "*text* {v1}", "= Title", "[footnote](n)\n\n[footnote=n]\n----\nx\n----", "{nope}", "----\nopen"])
    for i in range(n):
        kind = rng.choice(kinds)
        if kind == "file" or rng.random() < 0.05:
            files[f"{prefix}n{i}.mau"] = text + "\n"
            text = f"<< mau:{prefix}n{i}.mau" + rng.choice(["", ", call:v1=2", ", pass_environment=false, call:v1={v1}"])
        elif kind == "block":
            d = chars[i % len(chars)] * 4
            head = rng.choice(["", "", "[isolate=false]\n", "[*note, #t1]\n", ".role label\n", "@if v1==1\n", "[group=g, position=p%d]\n" % i if i < 3 else ""])
            text = f"{head}{d}\n{text}\n{d}"
        else:
            text = "* a\n** b\n\n" + text
        if rng.random() < 0.1:
            text = "Par\n\n" + text
    files[main] = text + "\n"


def position(rng):
    """A moment of a job: anywhere, at a line of the code, or at an operation.

    Most steps are spent in a few hot loops; drawing the line first gives each
    line of the code that a job executes the same chance.
    """
    r = rng.random()
    if r < 0.35:
        return rng.randrange(1_000_000)
    if r < 0.9:
        return ["line", rng.randrange(1_000_000), rng.randrange(1_000_000)]
    return ["io", rng.randrange(1_000_000)]


def profile(res, jid):
    """Where the moments of a job are (the run had "lines": True)."""
    return res["lines"].get(jid) or res["steps"][jid]


def step_at(pos, prof):
    """The step of a position in a job with this profile (or number of steps)."""
    steps = prof if isinstance(prof, int) else prof["steps"]
    if isinstance(pos, int):
        return 1 + place(pos, max(1, steps))
    if isinstance(prof, int):
        return 1 + place(pos[1], max(1, steps))
    if pos[0] == "line" and prof["lines"]:
        line = prof["lines"][place(pos[1], len(prof["lines"]))]
        return line[place(pos[2], len(line))]
    if pos[0] == "io" and prof["io"]:
        return prof["io"][place(pos[1], len(prof["io"]))]
    return 1 + place(pos[1], max(1, steps))


def switches_at(ex, spec, jobs, switches):
    """Preemptions of jobs that all do what the first one does."""
    if not switches or len(jobs) < 2:
        return []
    ref = ex({**spec, "phases": [{"jobs": [{k: v for k, v in jobs[0].items() if k not in ("faults", "edits")}]}], "lines": True})
    prof, n = profile(ref, jobs[0]["id"]), len(jobs)
    return [[t % n, step_at(p, prof), to % n] for t, p, to in switches]


def apply_edits(files, edits):
    """What the file system looks like after the editor's changes."""
    files = dict(files)
    for e in edits:
        how, path = e["how"], e["path"]
        if how == "delete":
            files.pop(path, None)
            # The directory stays.
            folder = path.rpartition("/")[0]
            if folder and not any(f.startswith(folder + "/") for f in files):
                files[folder] = None
        elif how in ("replace", "inplace"):
            files[path] = e.get("data", "")
        elif how == "append":
            files[path] = (files.get(path) or "") + e.get("data", "")
        elif how == "truncate":
            if path in files:
                files[path] = files[path].encode("utf-8", "surrogateescape")[: e.get("size", 0)].decode("utf-8", "surrogateescape")
    return files


def mutate(rng, text):
    """Another version of a text file; often of the same size."""
    k = rng.random()
    if k < 0.45:
        words = [w for w in ("alpha", "beta", "gamma", "delta", "page", "text", "rain", "tree") if w in text]
        if words:
            w = rng.choice(words)
            other = {"alpha": "ALPHA", "beta": "page", "gamma": "delta", "delta": "gamma", "page": "beta", "text": "rain", "rain": "tree", "tree": "text"}[w]
            return text.replace(w, other)
        if text.startswith("<"):
            # A template.
            return "<%" + text[2:] if text[1:2] != "%" else "<&" + text[2:]
    lines = text.split("\n")
    if k < 0.65:
        return text.rstrip("\n") + "\n\nAdded " + rng.choice(["alpha", "beta {v1}", "*x*"]) + "\n"
    if k < 0.8 and len(lines) > 3:
        i = rng.randrange(len(lines))
        del lines[i]
        return "\n".join(lines)
    return "Replaced page\n"


def is_failure(job):
    """The caller can see that the run failed."""
    if job["status"] == "exit":
        return job["exit"] != 0
    return job["status"] in ("error", "mau-error", "crash")
