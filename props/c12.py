"""C12: environment files and variables load exactly, and all or nothing."""

import json

from props.common import *  # noqa: F403

RUNS = {"quick": 2200, "thorough": 120000}
RULE = (
    "A scenario is one or two Environments (loaded concurrently when two) on which files and variables are "
    "loaded by a series of calls, with valid, missing, unreadable, undecodable and malformed files, faults on "
    "their open, read and close, interrupts between two instructions, short reads, and files replaced while "
    "they are being loaded; or a command line that loads configuration, files and variables and prints them. "
    "An oracle computes the flat variables from the bytes that the reads delivered. Non-trivial: a call with "
    "at least two entries, a bad file, or a fault or edit that took place; counted by distinct scenario."
)
TEXTS = {
    # Hand-written YAML and what it means.
    "a: 1\nb:\n  c: two\n  d: [1, x]\n": {"a": 1, "b": {"c": "two", "d": [1, "x"]}},
    "just text\n": "just text",
    "- 1\n- k: v\n": [1, {"k": "v"}],
    "": None,
    "# comment\n": None,
    "k: yes\nn: ~\nf: 1.5\n": {"k": True, "n": None, "f": 1.5},
    "é: ü\n日: 本\n": {"é": "ü", "日": "本"},
    "1: one\ntrue: t\n": {1: "one", True: "t"},
    "x: &a {p: 1}\ny: *a\nz:\n  <<: *a\n  q: 2\n": {"x": {"p": 1}, "y": {"p": 1}, "z": {"p": 1, "q": 2}},
    "t: |\n  line 1\n  line 2\n": {"t": "line 1\nline 2\n"},
    "e: {}\nl: []\n": {"e": {}, "l": []},
    "d.o.t: 1\nd:\n  o: 2\n": {"d.o.t": 1, "d": {"o": 2}},
    "q: 'it''s'\r\nr: \"a\\nb\"\r\n": {"q": "it's", "r": "a\nb"},
    "---\na: 1\n...\n": {"a": 1},
}
BAD = ["a: [1", "a: b: c\n", "\tx: 1\n", "a: 1\n---\nb: 2\n", "x: !!python/object:os.system {}\n", "? [1]\n: x\n", "a: *nope\n", "k: \udcff\udcfe\n", "\udcc3", "a: \x00\n", "%YAML 9\n--- {", "'open\n", "[" * 4000, "a: 1\n b: 2\n", "@x\n"]
NAMES = ["a.yaml", "b.yml", "sub/a.yaml", "c.d.yaml", "plain", ".hidden", "e f.yaml", "é.yaml", "~x.yaml", "~", "$HOME.yaml", "%41.yaml", "[ab].yaml", "x.tar.gz", "A.YAML", "up.json", "#n.yaml"]
KEYS = ["k", "deep.key", "k2", "a", "é"]
SPACES = [None, None, "custom", "deep.ns", "", "envvars", "envfiles"]


def value(rng, depth=0):
    k = rng.random()
    if k < 0.4 and depth < 3:
        return {rng.choice(["x", "y", "z w", "é", "n"]): value(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3]))}
    if k < 0.5:
        return [value(rng, depth + 2) for _ in range(rng.choice([0, 1, 2]))]
    return rng.choice(["text", "", "1", 1, -2.5, True, None, "é ü", "a: b", "{v}", "x" * 9000 if rng.random() < 0.05 else "y"])


def text(rng, good=True):
    if not good:
        return rng.choice(BAD)
    if rng.random() < 0.5:
        return rng.choice(sorted(TEXTS))
    return json.dumps(value(rng), ensure_ascii=rng.random() < 0.5)


def entries(rng, files):
    names = sorted(files)
    out, used = [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        name = rng.choice(names)
        if rng.random() < 0.05:
            name = rng.choice(["absent.yaml", "sub", "sub/none.yaml", "a.yaml/x"])
        key = None
        if rng.random() < 0.5:
            key = rng.choice(KEYS)
        full = key if key is not None else stem(name)
        # A key below another one is left out: which of them is later is not clear.
        if any(o != full and (o.startswith(full + ".") or full.startswith(o + ".")) for o in used):
            continue
        used.add(full)
        out.append(name if key is None else f"{key}={name}")
    return out


def stem(path):
    name = path.rpartition("/")[2]
    i = name.rfind(".")
    return name if i <= 0 or i == len(name) - 1 else name[:i]


def variables(rng):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        out.append(rng.choice(["a=1", "b=two words", "a=2", "c.d=x", "é=ü", "e=", "=v", "f= x "]) if rng.random() < 0.93 else rng.choice(["bad", "", "a=b=c"]))
    return out


def make(rng, index, tier):
    files = {}
    for name in rng.sample(NAMES, rng.choice([1, 2, 3, 4, 5])):
        files[name] = text(rng, rng.random() < 0.9)
    sc = {"files": dict(files), "opts": opts(rng), "jobs": []}
    if rng.random() < 0.25:
        return make_cli(rng, sc)
    base = rng.choice([{}, {"mau": {"envfiles": {"old": "kept", "k": {"x": 0, "left": 1}}, "parser": {"p": 1}}, "v": "1"}, {"mau.envvars.a": "0", "custom": {"k": 1}}])
    njobs = rng.choice([1, 1, 2])
    for j in range(njobs):
        calls = []
        for _ in range(rng.choice([1, 2, 3])):
            kind = rng.choice(["files", "files", "variables"])
            calls.append([kind, entries(rng, files) if kind == "files" else variables(rng), rng.choice(SPACES)])
        job = {"id": f"j{j}", "kind": "envload", "base": base, "calls": calls}
        if rng.random() < 0.35:
            op = rng.choice(["open", "read", "close", "stat"])
            job["faults"] = [{"op": op, "n": rng.randrange(5), "kind": rng.choice(FILE_FAULTS.get(op, ["eio"]) + ASYNC)}]
        if rng.random() < 0.3:
            job["ppm"] = [{"ppm": position(rng), "kind": rng.choice(ASYNC)}]
        if rng.random() < 0.3:
            name = rng.choice(sorted(files))
            job["edits"] = [{"op": rng.choice(["open", "read"]), "n": rng.randrange(4), "how": rng.choice(["replace", "inplace", "delete", "truncate", "append"]),
                             "path": name, "data": text(rng, rng.random() < 0.8), "size": rng.randrange(8)}]  # fmt: skip
        sc["jobs"].append(job)
    sc["switches"] = [[rng.randrange(2), position(rng), rng.randrange(2)] for _ in range(rng.choice([1, 3]))] if njobs > 1 else []
    return sc


def make_cli(rng, sc):
    files = sc["files"]
    argv = ["-i", "main.mau", "-t", "simplugins:SimHtml", "-o", "out.html"]
    ns = {"files": "envfiles", "variables": "envvars"}
    if rng.random() < 0.3:
        ns["files"] = rng.choice(["custom", "deep.ns"])
        argv += ["--environment-files-namespace", ns["files"]]
    if rng.random() < 0.3:
        ns["variables"] = rng.choice(["custom", "vv"])
        argv += ["--environment-variables-namespace", ns["variables"]]
    es = entries(rng, files)
    vs = [v for v in variables(rng) if v and not v.startswith("=")]
    for e in es:
        argv += ["-e", e]
    for v in vs:
        argv += ["-v", v]
    if rng.random() < 0.4:
        files["conf.yaml"] = rng.choice(["parser:\n  variables: {}\nextra: é\n", "extra: 1\nvisitor:\n  templates: {}\n"]) if rng.random() < 0.85 else rng.choice(BAD)
        argv += ["-c", "conf.yaml"]
    sc["cli"] = {"entries": es, "variables": vs, "ns": ns}
    job = {"id": "j0", "kind": "cli", "argv": argv}
    if rng.random() < 0.4:
        op = rng.choice(["open", "read", "close"])
        job["faults"] = [{"op": op, "n": rng.randrange(4), "kind": rng.choice(FILE_FAULTS.get(op, ["eio"]) + ASYNC)}]
    # The document prints every variable that should be there.
    want = {}
    for e in es:
        key, path = split(e)
        if isinstance(files.get(path), str):
            meaning = parse(files[path])
            if meaning is not None:
                drop(want, key, meaning[0])
    lines = []
    for k, v in flat_of(want, "mau." + ns["files"]).items():
        lines.append(probe(k, v))
    flat = {}
    for v in vs:
        k, eq, x = v.partition("=")
        flat[k] = x
    for k, v in flat.items():
        lines.append(probe(f"mau.{ns['variables']}.{k}", v))
    if "conf.yaml" in files:
        lines.append("mau.extra is {mau.extra} end")
    files["main.mau"] = "\n\n".join(x for x in lines if x) or "Nothing\n"
    sc["jobs"] = [job]
    sc["switches"] = []
    return sc


def probe(name, v):
    if isinstance(v, str) and v and "\n" not in v and v == v.strip() and not set(v) & set("{}*_`~^[]\\$%") and not set(name) & set(" {}*`~^[]\\$%#"):
        return f"The variable {{{name}}} is here"
    return None


# -- oracle ---------------------------------------------------------------------


def split(entry):
    parts = entry.split("=")
    if len(parts) == 2:
        return parts[0], parts[1]
    return stem(entry), entry


def parse(data):
    """[value] of a text, or None if it is not valid."""
    if data in BAD:
        return None
    if data in TEXTS:
        return [TEXTS[data]]
    try:
        data.encode("utf-8")
    except UnicodeError:
        return None
    try:
        return [json.loads(data)]
    except ValueError:
        pass
    import yaml

    try:
        return [yaml.safe_load(data.replace("\r\n", "\n").replace("\r", "\n"))]
    except Exception:
        return None


def drop(table, key, v):
    # A later entry takes the place of an earlier one.
    table.pop(key, None)
    table[key] = v


def flat_of(d, prefix):
    out = {}
    for k, v in d.items():
        name = f"{prefix}.{k}"
        if isinstance(v, dict) and v:
            out.update(flat_of(v, name))
        else:
            out[name] = v
    return out


def merge(before, new):
    """Overwrite in place, append what is new; order does not matter."""
    return {**before, **new}


def plain(d):
    from sim.canon import plain as p

    return {k: p(v) for k, v in d.items()}


def as_map(pairs):
    """Variables by name; sharing between values is not observable here."""
    from props.c10 import revive

    table = []
    table.append(None)
    return {k: revive(v, table) for k, v in pairs}


def normal(v):
    if isinstance(v, dict):
        return {"d": [[normal(k), normal(x)] for k, x in v.items()]}
    if isinstance(v, list):
        return [normal(x) for x in v]
    return [type(v).__name__, v]


def same(a, b):
    return {k: normal(v) for k, v in a.items()} == {k: normal(v) for k, v in b.items()}


def check(sc, ex):
    jobs = [dict(j) for j in sc["jobs"]]
    spec = {"files": sc["files"], "opts": sc["opts"], "snapshot": True}
    if any("ppm" in j for j in jobs) or sc["switches"]:
        calm = ex({**spec, "phases": [{"jobs": [{k: v for k, v in j.items() if k not in ("ppm", "faults", "edits")}]} for j in jobs], "lines": True})
        for j in jobs:
            j["acts"] = [{"kind": a["kind"], "step": step_at(a["ppm"], profile(calm, j["id"]))} for a in j.pop("ppm", [])]
    switches = [[a % len(jobs), step_at(p, profile(calm, jobs[a % len(jobs)]["id"])), b % len(jobs)] for a, p, b in sc["switches"]]
    res = ex({**spec, "phases": [{"jobs": jobs, "switches": switches}]})
    for f in res["fired"]:
        ex.probe("fired_" + str(f["kind"]))
    bad = []
    if "cli" in sc:
        ex.nontrivial(sc)
        return check_cli(sc, res, ex)
    for j in jobs:
        got = res["jobs"][j["id"]]
        if any(len(c[1]) > 1 for c in j["calls"]) or res["fired"]:
            ex.nontrivial(sc["files"], j)
        bad += check_calls(sc, j, got, res, ex)
    return bad


def opens(res, jid, part):
    """The reads of each path made by one call, in order: text, or None if one failed."""
    out = {}
    for h in res["history"][part[0] : part[1]]:
        if h["t"] == jid and h["op"] == "open":
            data = None
            if h.get("ok") and h.get("eof") and not h.get("late"):
                data = h["data"]
            out.setdefault(h["path"], []).append(data)
    return out


def check_calls(sc, job, got, res, ex):
    import posixpath

    bad = []
    if "before" not in got or "other" not in got:
        # Interrupted before the first call.
        return []
    disturbed = bool(res["fired"]) or bool(job.get("acts"))
    before = as_map(got["before"])
    if not same(as_map(got["other"]), before):
        bad.append(("other-environment-changed", {"other": got["other"]}))
    for rec, (kind, items, ns) in zip(got.get("calls", []), job["calls"]):
        if "after" not in rec:
            break
        after = as_map(rec["after"])
        reads = opens(res, job["id"], rec["h"])
        if not rec["items_intact"]:
            bad.append(("arguments-changed", {"call": items}))
        prefix = "mau." + (ns or ("envfiles" if kind == "files" else "envvars"))
        table, culprit, named = {}, None, ()
        if kind == "files":
            for entry in items:
                key, path = split(entry)
                queue = reads.get(posixpath.normpath(path))
                if not queue:
                    # Never opened: it was not reached, or refused before.
                    text_, missing = None, True
                else:
                    text_, missing = queue.pop(0), False
                meaning = parse(text_) if text_ is not None else None
                if meaning is None:
                    culprit = entry
                    # A fault when the file before was closed also stops here.
                    named = named + (entry,) if missing and disturbed else (entry,)
                    ex.probe("bad_entry" if not missing else "not_opened")
                    break
                drop(table, key, meaning[0])
                named = (entry,)
        else:
            for item in items:
                parts = item.split("=")
                if len(parts) != 2:
                    culprit = item
                    break
                drop(table, parts[0], parts[1])
        if items:
            ex.probe(f"{kind}_{rec['status']}")
        full = merge(before, flat_of(table, prefix)) if table else before
        if rec["status"] == "ok":
            if culprit is not None and kind == "files":
                bad.append(("bad-file-accepted", {"entry": culprit, "call": items}))
            elif culprit is None and not same(after, full):
                bad.append(("wrong-variables", {"call": [kind, items, ns], "difference (variables != expected)": diff(after, full)}))
            before = after
            continue
        # The call failed.
        if not same(after, before) and not (disturbed and culprit is None and same(after, full)):
            bad.append(("half-loaded", {"call": [kind, items, ns], "error": rec["error"], "difference (after != before)": diff(after, before)}))
        name = rec["error"][1] if len(rec["error"]) > 1 else rec["error"][0]
        asynchronous = disturbed and name in ("KeyboardInterrupt", "SystemExit", "MemoryError")
        if kind == "files" and not asynchronous:
            if not rec["config_error"]:
                bad.append(("not-a-configuration-error", {"call": items, "error": rec["error"]}))
            elif culprit is not None and not any(n in rec["text"] for n in named):
                bad.append(("entry-not-named", {"entry": culprit, "text": rec["text"]}))
            elif culprit is None and not disturbed:
                bad.append(("valid-file-refused", {"call": items, "error": rec["error"], "text": rec["text"]}))
        if kind == "variables" and culprit is None and not disturbed:
            bad.append(("valid-variable-refused", {"call": items, "error": rec["error"]}))
        before = after
    return bad


def clash(sc):
    """A variable has the name of a namespace, which templates cannot show."""
    names = set(wanted(sc))
    if "conf.yaml" in sc["files"]:
        names |= {"mau.extra"}
    return any(a != b and b.startswith(a + ".") for a in names for b in names)


def wanted(sc):
    table = {}
    for e in sc["cli"]["entries"]:
        key, path = split(e)
        drop(table, key, parse(sc["files"][path])[0])
    want = flat_of(table, "mau." + sc["cli"]["ns"]["files"])
    values = {}
    for v in sc["cli"]["variables"]:
        k, _, x = v.partition("=")
        values[k] = x
    return {**want, **flat_of(values, "mau." + sc["cli"]["ns"]["variables"])}


def check_cli(sc, res, ex):
    got = res["jobs"]["j0"]
    files = sc["files"]
    cli = sc["cli"]
    out = res["files"].get("out.html")
    ex.probe(f"cli_{got.get('exit') if got.get('exit') in (0, 'crash') else 'failed'}")
    broken = [e for e in cli["entries"] if not isinstance(files.get(split(e)[1]), str) or parse(files[split(e)[1]]) is None]
    broken += [v for v in cli["variables"] if v.count("=") != 1]
    if "conf.yaml" in files and parse(files["conf.yaml"]) is None:
        broken.append("conf.yaml")
    if broken:
        if got["exit"] == 0:
            return [("cli-accepts-bad-entry", {"entries": broken})]
        if out is not None:
            return [("cli-output-after-bad-entry", {"entries": broken})]
        return []
    if got["exit"] != 0:
        if not res["fired"] and not clash(sc):
            return [("cli-refuses-valid-entries", {"error": got.get("error"), "stdout": got["stdout"][-300:]})]
        return []
    want = wanted(sc)
    expected = [f"The variable {v} is here" for k, v in want.items() if probe(k, v)]
    if "conf.yaml" in files:
        expected.append("mau.extra is")
    for text_ in expected:
        if text_ not in (out or ""):
            return [("cli-variable-missing", {"expected": text_, "output": out})]
    return []
