"""C09: the result depends only on the documented inputs."""

from props.common import *  # noqa: F403

RUNS = {"quick": 420, "thorough": 25000}
SEEDS = (0, 1, 12345, 4242424242)
RULE = (
    "A scenario is one compilation (API or command line) run on a reference host and on 2-4 other simulated "
    "hosts: another hash seed, listing order, plugin order, locale encoding, clock (value and rate), process "
    "identity, machine, heap layout, environment variables, working directory, file times, read splitting, buffer size. Non-trivial: the host differs in at least one "
    "dimension (always); counted by distinct (project, host)."
)

ENVIRON = {
    "LANG": ["C", "de_DE.UTF-8", "ja_JP.SJIS", None],
    "LC_ALL": ["C", "POSIX", "tr_TR.UTF-8"],
    "LANGUAGE": ["it", "ar"],
    "TZ": ["Asia/Tokyo", "America/St_Johns", "UTC"],
    "HOME": ["/nowhere", "/root", None],
    "USER": ["mau", "root"],
    "LOGNAME": ["mau"],
    "TERM": ["dumb", "xterm-256color"],
    "NO_COLOR": ["1"],
    "FORCE_COLOR": ["1"],
    "PYTHONIOENCODING": ["ascii"],
    "TMPDIR": ["/nowhere"],
    "EDITOR": ["vi"],
    "DEBUG": ["1"],
    "PWD": ["/elsewhere"],
    "SOURCE_DATE_EPOCH": ["0", "315532800"],
    "MAU_DEBUG": ["1"],
    "CI": ["true"],
}


def host(rng):
    h = {"opts": {}, "seed": rng.choice(SEEDS)}
    o = h["opts"]
    if rng.random() < 0.7:
        o["listing"] = rng.randrange(10000)
    if rng.random() < 0.6:
        o["plugin_order"] = rng.randrange(10000)
    if rng.random() < 0.6:
        o["encoding"] = rng.choice(["ascii", "latin-1", "cp1252", "utf-16", "shift_jis"])
    if rng.random() < 0.6:
        o["clock"] = rng.choice([0.0, 86399.0, 1_900_000_000.0, 4_200_000_000.0, 1_700_000_001.0])
        o["clock_rate"] = rng.choice([0.0, 1e-6, 1.0])
    if rng.random() < 0.5:
        o["host"] = rng.randrange(2, 100000)
    if rng.random() < 0.3:
        o["heap"] = rng.randrange(100000)
    if rng.random() < 0.5:
        o["chunk"] = rng.choice([1, 2, 3, 7, 50])
    if rng.random() < 0.3:
        o["bufsize"] = rng.choice([1, 16, 1 << 16])
    if rng.random() < 0.3:
        o["eintr"] = rng.choice([1, 2])
    if rng.random() < 0.5:
        o["environ"] = {
            name: rng.choice(values)
            for name, values in ENVIRON.items()
            if rng.random() < 0.4
        }
    if rng.random() < 0.4:
        o["cwd"] = rng.choice(["a", "with space", "{{ x }}", "z" * 60, "é", "html", "core.tex"])
    if rng.random() < 0.5:
        h["mtime"] = rng.choice([0, 1_000_000_000, 1_999_999_999])
    return h


def make(rng, index, tier):
    proj = project(rng, errors=0.2)
    files = dict(proj["files"])
    sc = {"files": files, "hosts": [host(rng) for _ in range(rng.choice([2, 3, 4]))]}
    aliased = "aliases" in proj["config"].get("parser", {})
    if aliased or rng.random() < 0.3:
        # More names whose order could be lost.
        p = proj["config"].setdefault("parser", {})
        p.setdefault("aliases", {"source": {"args": {"engine": "source"}, "names": ["language"]}})
        p["aliases"]["many"] = {"subtype": "note", "args": {f"k{i}": f"v{i}" for i in range(rng.choice([3, 6, 9]))}, "names": rng.choice([[], ["a1"], ["b2", "a1"]])}
        main = proj["main"]
        files[main] += "\n\n[@many, " + rng.choice(["x, y", "#t1, #t2, #t3, x", "#debugging"]) + (", ".join(["", "z=1", "k0=9"]) if rng.random() < 0.5 else "") + "]\nAliased par\n"
    if rng.random() < 0.35:
        # Equivalent templates in different places of the same tree.
        t = proj["config"].setdefault("visitor", {}).setdefault("templates", {})
        t.setdefault("paths", ["tpl"])
        d = t["paths"][0]
        names = [
            "paragraph.note.html", "paragraph.tg_t1.html", "paragraph.tg_t2.html", "paragraph.tg_t1.tg_t2.html",
            "paragraph.tg_t2.tg_t1.html", "paragraph.note.tg_t1.html", "paragraph.note.tg_t2.html", "text.pt_paragraph.html",
            "paragraph.note.tg_T1.html", "paragraph.tg_T1.html", "paragraph.tg_t1.tg_T1.html",
        ]  # fmt: skip
        for k in range(rng.choice([2, 4, 6])):
            name = docs.layout(rng, rng.choice(names))
            files[f"{d}/{name}"] = f"<é{k}>" + ("{{ value }}" if name.startswith("text") else "{{ content }}")
        files[proj["main"]] += "\n\n[*note, #t1, #t2, #T1]\nTemplated par\n"
    if rng.random() < 0.4:
        sc["job"] = {"id": "j", "kind": "cli", "argv": cli_argv(rng, proj, files, rng.choice(["out.html", None, "-"]))}
        if rng.random() < 0.3:
            files["env.yaml"] = "k1: é\nk2:\n  deep: on\n"
            sc["job"]["argv"] += ["-e", "env.yaml"]
        if rng.random() < 0.2:
            sc["job"]["argv"].append(rng.choice(["--debug", "--verbose", "--lexer-print-output"]))
    else:
        sc["job"] = job_of(rng, proj, "j")
        if rng.random() < 0.3:
            sc["job"]["tree"] = True
    sc["files"] = files
    return sc


def check(sc, ex):
    spec = {"files": sc["files"], "snapshot": True, "phases": [{"jobs": [sc["job"]]}]}
    ref = ex(dict(spec), hashseed=0)
    want = ref["jobs"]["j"]
    ex.probe("status_" + want["status"])
    bad = []
    for h in sc["hosts"]:
        s = {**spec, "opts": h["opts"]}
        if "mtime" in h:
            s["mtime"] = h["mtime"]
        res = ex(s, hashseed=h["seed"])
        ex.nontrivial(sc["files"], sc["job"], h)
        for k in h["opts"]:
            ex.probe("host_" + k)
        if h["seed"]:
            ex.probe("host_hashseed")
        d = diff(outcome(res["jobs"]["j"]), outcome(want)) or diff(res["files"], ref["files"])
        if d:
            bad.append(("host-dependent", {"host": h, "difference (this host != reference host)": d}))
    return bad
