"""C04: the command line never damages files and exits 0 only with complete output."""

import json
import posixpath

from props.common import *  # noqa: F403
from props.c03 import choose

RUNS = {"quick": 420, "thorough": 25000}
RULE = (
    "A scenario is a directory and a command line (input names of every shape, output given, defaulted, '-', "
    "impossible or already existing, configuration, environment files and variables, logging and lexer "
    "options), run without faults and with errors, full disks, torn writes, out of memory, interrupts and "
    "crashes at drawn operations and steps, most of them late. The expected document comes from the API in "
    "another process. Non-trivial: a run that wrote output or was stopped; counted by distinct (scenario, "
    "stop)."
)
EXT = {"html": [".html", "..html"], "tex": [".tex", "..tex"], "yaml": [".yaml"]}


def make(rng, index, tier):
    main = rng.choice(["main.mau", "main.mau", "doc.txt", "doc", "a.mau.mau", "dir.mau/doc.mau", "page.yaml", "sub/doc.mau", "x.mau.html", "./main.mau", "dir.mau/doc.txt"])
    proj = project(rng, errors=0.12, main=main)
    files = dict(proj["files"])
    text = "".join(f":{k}:{v}\n" for k, v in proj["vars"].items()) + "\n" + files[main]
    fmt = rng.choice(["html", "html", "tex", "yaml"])
    cfg = proj["config"]
    argv = ["-i", main]
    api = {}
    if "$obj" in json.dumps(cfg):
        cfg = {}
    if rng.random() < 0.15:
        # The document is understood but cannot be rendered.
        how = rng.choice(["provider", "syntax", "undefined", "late"])
        if how == "provider":
            broken = {"providers": ["not-installed"]}
        else:
            broken = {"paths": ["broken"]}
            name = rng.choice(["document", "document", "paragraph", "text"])
            body = {"syntax": "{% if %}", "undefined": "{{ nothing.at.all }}", "late": "{{ content }}{{ nothing.at.all }}"}[how]
            for e in (".html", ".tex"):
                files["broken/" + name + e] = body
        old = dict(cfg.get("visitor") or {})
        cfg = {**cfg, "visitor": {**old, "templates": {**(old.get("templates") or {}), **broken}}}
    if cfg or rng.random() < 0.3:
        files["conf.yaml"] = config_text(rng, cfg) if cfg else "site: S9\n"
        cfg = cfg or {"site": "S9"}
        argv += ["-c", "conf.yaml"]
    else:
        files = {k: v for k, v in files.items()}
    api.update(cfg)
    if rng.random() < 0.4:
        files["env.yaml"] = "k1: v1\nk2:\n  deep: more\n"
        argv += ["-e", rng.choice(["env.yaml", "env=env.yaml"])]
        api["envfiles"] = {"env": {"k1": "v1", "k2": {"deep": "more"}}}
        text += "\n\nEnv {mau.envfiles.env.k1} {mau.envfiles.env.k2.deep}\n"
    if rng.random() < 0.4:
        # A byte that is no UTF-8 on the command line.
        value = "foo \udcff bar" if rng.random() < 0.12 else "foo bar"
        argv += ["-v", "x1=" + value]
        api["envvars"] = {"x1": value}
        text += "\n\nVar {mau.envvars.x1}\n"
    files[main] = text
    out = rng.choice([None, None, None, "out.html", "out.html", "-", "keep/out.x", "missing/out.x", "keep"])
    files["keep/bystander.txt"] = "untouched\n"
    if out not in (None, "-"):
        argv += [rng.choice(["-o", "--output-file"]), out]
    elif out == "-":
        argv += ["-o", "-"]
    base = main.removesuffix(".mau")
    old = rng.choice(["previous content\n", "x" * 20000, "", "previous content\n"])
    names = [out] if out and out != "-" else [base + e for e in EXT[fmt]]
    if rng.random() < 0.5:
        for name in names:
            if name not in ("missing/out.x", "keep", main):
                files[name] = old
    if rng.random() < 0.4:
        # Files of somebody else, with names that are near.
        for name in names:
            folder, _, last = name.rpartition("/")
            folder += "/" if folder else ""
            stem = last.rpartition(".")[0] or last
            near = [last + x for x in (".tmp", ".bak", "~", ".new", ".old", ".part", ".swp", ".lock", ".1", ".orig")]
            near += [stem + x for x in (".tmp", ".bak", "~", ".new", ".old", ".part")]
            near += ["." + last, "." + last + ".tmp", "." + last + ".swp", "." + stem + ".tmp", "tmp", "tmp_" + last, "~" + last, "#" + last + "#"]
            for x in near if rng.random() < 0.5 else rng.sample(near, 4):
                if folder.startswith("missing/"):
                    continue
                files.setdefault(folder + x, f"mine: {x}\n")
    mode = rng.random()
    if mode < 0.9:
        argv += ["-t", VISITORS[fmt]]
    if rng.random() < 0.2:
        argv += [rng.choice(["--debug", "--verbose", "--lexer-print-output"])]
    if rng.random() < 0.05:
        argv += ["--lexer-only"]
    sc = {"files": files, "main": main, "argv": argv, "fmt": fmt if mode < 0.9 else None, "out": out, "api": api, "opts": opts(rng), "variants": []}
    if rng.random() < 0.1:
        sc["encoding"] = rng.choice(["ascii", "latin-1"])
    for _ in range(rng.choice([4, 5, 6])):
        if rng.random() < 0.7:
            f = {"ppm": rng.choice([rng.randrange(1_000_000), 1_000_000 - rng.randrange(1, 1000)]), "pick": rng.randrange(1000),
                 "only": rng.choice([None, "write", "write", "open", "close", "stdout", "meta", "read"]),
                 "sticky": rng.random() < 0.15, "part": rng.choice([0, 0, 0.3, 0.9])}  # fmt: skip
            v = {"faults": [f], "crash": rng.random() < 0.35}
        else:
            # Late steps are the interesting ones.
            ppm = rng.choice([position(rng), 1_000_000 - rng.randrange(1, 20_000), 1_000_000 - rng.randrange(1, 500)])
            v = {"act": rng.choice(["crash", "crash", "interrupt", "memory", "sysexit"]), "ppm": ppm}
        sc["variants"].append(v)
    return sc


def check(sc, ex):
    main, files = sc["main"], sc["files"]
    job = {"id": "j", "kind": "cli", "argv": sc["argv"]}
    if sc.get("encoding"):
        job["stdout_encoding"] = sc["encoding"]
    spec = {"files": files, "opts": sc["opts"], "snapshot": True}
    ref = ex({**spec, "phases": [{"jobs": [job]}], "lines": True})
    want = ref["jobs"]["j"]
    api = ex({"files": files, "phases": [{"jobs": [{
        "id": "j", "kind": "compile", "file": main, "source": main, "config": sc["api"], "visitors": [sc["fmt"] or "base"]}]}]})["jobs"]["j"]  # fmt: skip
    render = sc["fmt"] is not None and "--lexer-only" not in sc["argv"]
    expected = api["out"][0] + "\n" if api["status"] == "ok" and render else None
    before = normal(files)
    out = sc["out"]
    if out is None and sc["fmt"]:
        names = [posixpath.normpath(main.removesuffix(".mau") + e) for e in EXT[sc["fmt"]]]
    else:
        names = [posixpath.normpath(out)] if out not in (None, "-") else []
    bad = []

    def damaged(after, allowed):
        after = normal(after)
        return [n for n in before if n not in allowed and before[n] is not None and after.get(n) != before[n]]

    # Without faults.
    lost = damaged(ref["files"], names)
    if posixpath.normpath(main) in names:
        lost += damaged(ref["files"], [n for n in names if n != posixpath.normpath(main)])
    if lost:
        bad.append(("damage", {"files": lost[:5], "argv": sc["argv"], "exit": want["exit"]}))
    written = [n for n in names if normal(ref["files"]).get(n) != before.get(n)]
    if expected is None:
        ex.probe("no_document")
        if written:
            bad.append(("output-without-document", {"files": written, "exit": want["exit"], "api": api["status"]}))
        if render and want["exit"] == 0:
            bad.append(("exit-status", {"exit": 0, "api": api["error"]}))
        if not render and sc["fmt"] and want["exit"] == 0 and api["status"] != "ok" and api.get("at") == "lexer":
            bad.append(("exit-status", {"exit": 0, "api": api["error"]}))
    elif unencodable(expected):
        # No file can hold this document.
        ex.probe("unencodable")
        if want["exit"] == 0:
            bad.append(("exit-status", {"exit": 0, "document": "not encodable as UTF-8", "argv": sc["argv"]}))
        for n in written:
            now = ref["files"].get(n)
            if not isinstance(now, str) or not encodable_part(expected).startswith(now):
                bad.append(("output", {"file": n, "now": short(now), "exit": want["exit"]}))
        return bad
    elif want["exit"] == 0:
        ex.probe("document")
        if "$" not in str(out) and out == "-":
            text = expected
            ok = want["stdout"].endswith(text) if noisy(sc) else want["stdout"] == text
            if sc.get("encoding"):
                ok = True
            if not ok:
                bad.append(("standard-output", {"difference": diff(want["stdout"], text)}))
        else:
            found = [n for n in names if ref["files"].get(n) == expected]
            if not found:
                bad.append(("output", {"difference": diff({n: ref["files"].get(n) for n in names}, {n: expected for n in names}), "argv": sc["argv"]}))
    else:
        ex.probe("not_written")
        # The terminal may be unable to show what is printed.
        printed = sc.get("encoding") and (out == "-" or noisy(sc))
        if out in (None, "out.html", "keep/out.x", "-") and not printed:
            bad.append(("exit-status", {"exit": want["exit"], "error": want.get("error"), "argv": sc["argv"]}))
        if written:
            bad.append(("output-without-document", {"files": written, "exit": want["exit"]}))
    # With faults.
    targets = [n for n in names if ref["files"].get(n) == expected] if expected is not None else []
    first = None
    for h in ref["history"]:
        if h["path"] in names and h["op"] not in ("stat",) or h.get("other") in names:
            first = h
            break
    for v in sc["variants"]:
        j = dict(job)
        if "faults" in v:
            fs = [c for c in (choose(ref["history"], f, None) for f in v["faults"]) if c]
            if v["crash"]:
                for f in fs:
                    f["kind"] = "crash"
            j["faults"] = fs
        else:
            j["acts"] = [{"kind": v["act"], "step": step_at(v["ppm"], profile(ref, "j"))}]
        res = ex({**spec, "phases": [{"jobs": [j]}]})
        got = res["jobs"]["j"]
        fired = res["fired"]
        info = {"fired": fired, "exit": got["exit"], "argv": sc["argv"]}
        if fired:
            ex.nontrivial(sc["files"], sc["argv"], fired)
        lost = damaged(res["files"], names)
        if lost:
            bad.append(("damage", {"files": lost[:5], **info}))
        after = normal(res["files"])
        if got["exit"] == 0:
            ex.probe("faulted_success")
            d = diff(res["files"], ref["files"]) or (diff(got["stdout"], want["stdout"]) if out == "-" or sc["fmt"] is None else None)
            if want["exit"] != 0:
                # The fault can only make things worse.
                bad.append(("exit-status", {"without the fault": want["exit"], **info}))
            elif d and not (names and not targets):
                bad.append(("exit-status", {"difference (faulted != fault-free)": d, **info}))
            continue
        ex.probe("stopped_crash" if got["exit"] == "crash" else "stopped")
        for n in names:
            now, old = after.get(n), before.get(n)
            if now == old:
                continue
            if expected is None or not isinstance(now, str) or not prefix(now, expected):
                bad.append(("output", {"file": n, "now": short(now), **info}))
            elif first is None or (fired and (fired[0]["step"] or 0) < first["s"] and fired[0].get("io", 0) <= first["n"] and before_output(fired[0], first)):
                bad.append(("output-too-early", {"file": n, "now": short(now), **info}))
    return bad


def encodable_part(text):
    try:
        text.encode("utf-8")
        return text
    except UnicodeEncodeError as exc:
        return text[: exc.start]


def unencodable(text):
    return encodable_part(text) != text


def before_output(fault, first):
    """The fault hit before the first operation on the output."""
    return fault["step"] < first["s"]


def prefix(now, expected):
    """A torn write may end inside a character."""
    now = now.encode("utf-8", "surrogateescape")
    return expected.encode("utf-8", "surrogateescape").startswith(now)


def normal(files):
    return {posixpath.normpath(k): v for k, v in files.items()}


def noisy(sc):
    return any(a in sc["argv"] for a in ("--debug", "--verbose", "--lexer-print-output"))
