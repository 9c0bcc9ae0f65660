"""C13: once faults stop, the first retry succeeds."""

from props.common import *  # noqa: F403
from props.c03 import choose

RUNS = {"quick": 900, "thorough": 50000}
RULE = (
    "A scenario is one compilation, stopped by a drawn fault (error of a file operation, out of memory, "
    "interrupt, exit, a file that is missing, half-written or unreadable and then completed; for the command "
    "line also a full disk or a crash while writing), and then repeated without the fault: through the API in "
    "the same process with a new Mau object, with the same one, on the tokens or on the tree that exist "
    "already, and through the command line in a new process on the directory the dead one left behind. The "
    "oracle is the same compilation without faults in a process of its own. Non-trivial: the first attempt was "
    "stopped or saw another file; counted by distinct (scenario, fault)."
)


def make(rng, index, tier):
    proj = project(rng, errors=0.06, incl=rng.choice([0, 0.2, 0.4]))
    files = dict(proj["files"])
    sc = {"files": files, "opts": opts(rng), "tries": []}
    cli = rng.random() < 0.4
    if cli:
        out = rng.choice(["out.html", "out.html", None, "sub/out.x", "-"])
        if out == "sub/out.x":
            files.setdefault("sub", None)
        if rng.random() < 0.4 and out and out != "-":
            files[out] = rng.choice(["previous content\n", "", "x" * 5000])
        proj["vars"] = {}
        argv = cli_argv(rng, proj, files, out)
        if rng.random() < 0.4:
            files["env.yaml"] = "k1: v1\nk2:\n  deep: on\n"
            argv += ["-e", rng.choice(["env.yaml", "key=env.yaml"])]
        sc["job"] = {"id": "j", "kind": "cli", "argv": argv}
    else:
        sc["job"] = job_of(rng, proj, "j")
    files = {k: v for k, v in files.items() if v is not None or not any(o.startswith(k + "/") for o in files if o != k)}
    sc["files"] = files
    names = sorted(f for f in files if isinstance(files[f], str) and f.endswith((".mau", ".txt", ".yaml", ".html", ".tex")))
    if not cli:
        # The text of the main document is given by the caller.
        names = [n for n in names if n != proj["main"]]
    for _ in range(rng.choice([3, 4, 5])):
        t = {"reuse": rng.choice([None, "same", "parser", "visitor"])}
        k = rng.random()
        if k < 0.5:
            t["fault"] = {"ppm": rng.randrange(1_000_000), "pick": rng.randrange(1000),
                          "only": rng.choice([None, "open", "read", "list", "stat", "write", "close"]), "sticky": rng.random() < 0.3,
                          "part": rng.choice([0, 0, 0.5])}  # fmt: skip
            if cli and rng.random() < 0.4:
                t["crash"] = True
        elif k < 0.8 or not names:
            t["act"] = {"ppm": position(rng), "kind": rng.choice(ASYNC + (["crash", "crash"] if cli else []))}
            if cli and rng.random() < 0.5:
                t["act"]["ppm"] = 1_000_000 - rng.randrange(1, 30_000)
        else:
            name = rng.choice(names)
            t["file"] = name
            t["how"] = rng.choice(["missing", "half", "half", "empty", "binary", "directory"])
            t["cut"] = rng.randrange(1_000_000)
        sc["tries"].append(t)
    return sc


def half(text, cut):
    data = text.encode("utf-8", "surrogateescape")
    return data[: place(cut, len(data) + 1)].decode("utf-8", "surrogateescape")


def check(sc, ex):
    job, files = sc["job"], sc["files"]
    spec = {"files": files, "opts": sc["opts"], "snapshot": True}
    ref = ex({**spec, "phases": [{"jobs": [job]}], "lines": True})
    want = ref["jobs"]["j"]
    ex.probe("document_" + want["status"])
    bad = []
    cli = job["kind"] == "cli"
    for t in sc["tries"]:
        first = dict(job)
        start = dict(files)
        repair = []
        if "fault" in t:
            f = choose(ref["history"], t["fault"], job.get("file"))
            if not f:
                continue
            if t.get("crash"):
                f["kind"] = "crash"
            first["faults"] = [f]
        elif "act" in t:
            first["acts"] = [{"kind": t["act"]["kind"], "step": step_at(t["act"]["ppm"], profile(ref, "j"))}]
        else:
            name = t["file"]
            start, repair = damage(files, name, t)
        if cli:
            one = ex({**spec, "files": start, "phases": [{"jobs": [first]}]})
            left = apply_edits(one["files"], repair)
            if any(isinstance(v, str) and e["path"].startswith(n + "/") for e in repair for n, v in left.items()):
                continue
            two = ex({**spec, "files": left, "phases": [{"jobs": [job]}]}, hashseed=1)
            got = two["jobs"]["j"]
            stopped = one["fired"] or repair
            d = diff(outcome(got), outcome(want))
            # The command may leave other files behind, but not in the way.
            if want["exit"] == 0:
                d = d or diff({n: two["files"].get(n) for n in ref["files"]}, ref["files"])
            info = {"first": one["jobs"]["j"].get("exit"), "fired": one["fired"]}
            ex.probe(f"cli_{one['jobs']['j'].get('exit')}")
        else:
            first["attempts"] = 2
            first["reuse"] = t["reuse"]
            first["repair"] = repair
            first["force"] = True
            res = ex({**spec, "files": start, "phases": [{"jobs": [first]}]})
            j = res["jobs"]["j"]
            got = j["attempts"][-1]
            stopped = res["fired"] or repair
            skip = ["includes", "toc"] if t["reuse"] == "visitor" and "includes" not in got else []
            if repair and t["reuse"] in ("parser", "visitor"):
                if t["reuse"] == "visitor" and "_" not in t and j["attempts"][0].get("includes") is not None:
                    # The tree was made from the damaged file.
                    continue
            d = diff(outcome(got, skip), outcome(want, skip))
            info = {"first": j["attempts"][0].get("status"), "at": j["attempts"][0].get("at"), "reuse": t["reuse"], "fired": res["fired"]}
            ex.probe(f"api_{t['reuse']}_{j['attempts'][0]['status']}_{j['attempts'][0].get('at')}")
        if stopped:
            ex.nontrivial(sc["files"], sc["job"], t)
        if d:
            bad.append(("retry-differs", {"try": t, **info, "difference (retry != fault-free)": d}))
    return bad


def damage(files, name, t):
    """The directory before a file was completed, and what completes it."""
    start = dict(files)
    text = files[name]
    how = t["how"]
    repair = [{"how": "replace", "path": name, "data": text}]
    if how == "missing":
        del start[name]
        folder = name.rpartition("/")[0]
        if folder and not any(f.startswith(folder + "/") for f in start):
            start[folder] = None
    elif how == "half":
        start[name] = half(text, t["cut"])
    elif how == "empty":
        start[name] = ""
    elif how == "binary":
        start[name] = half(text, t["cut"]) + "\udcff\udc80"
    else:
        # A directory is in the way; it is removed first.
        start[name] = None
        repair = [{"how": "delete", "path": name}] + repair
    return start, repair
