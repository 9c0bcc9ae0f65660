"""C03: a fault never yields a wrong result that looks successful."""

from props.common import *  # noqa: F403

RUNS = {"quick": 800, "thorough": 30000}
RULE = (
    "A scenario is one project compiled through the API or the command line: a fault-free run, then runs "
    "with one or two faults (error of a file operation, out of memory, interrupt) at drawn operations or "
    "steps of the fault-free run, and runs under benign conditions (short reads and writes, interrupted "
    "calls, slow devices). Non-trivial: a faulted run whose fault fired; counted by distinct (project, fault)."
)


def make(rng, index, tier):
    proj = project(rng, errors=0.05)
    files = dict(proj["files"])
    sc = {"files": files, "opts": opts(rng) if rng.random() < 0.4 else {}}
    cli = rng.random() < 0.45
    if cli:
        if rng.random() < 0.5:
            files["env.yaml"] = "k1: v1\nk2:\n  deep: on\n"
            proj["vars"] = {k: v for k, v in proj["vars"].items()}
        out = rng.choice(["out.html", "-", "sub/out.x", None])
        if out == "sub/out.x":
            files.setdefault("sub", None)
        if rng.random() < 0.4 and out and out != "-":
            files[out] = "previous content\n"
        argv = cli_argv(rng, proj, files, out)
        if "env.yaml" in files:
            argv += ["-e", rng.choice(["env.yaml", "key=env.yaml"])]
        if rng.random() < 0.1:
            argv.append("--lexer-print-output")
        # The variables of the project live outside the reserved name space.
        files = {
            k: (v.replace("{v1}", "{mau.envvars.v1}") if k == proj["main"] and isinstance(v, str) and "v1" in proj["vars"] and ":v1:" not in v else v)
            for k, v in files.items()
        }
        sc["files"] = files
        sc["job"] = {"id": "j", "kind": "cli", "argv": argv}
        if rng.random() < 0.5:
            # The settings come in pieces.
            sc["opts"]["chunk"] = rng.choice([7, 16, 50])
        if out == "-" and rng.random() < 0.4:
            sc["opts"]["stdout"] = rng.choice(["line", "bare", "bare"])
    else:
        sc["job"] = job_of(rng, proj, "j")
    variants = []
    for _ in range(rng.choice([4, 5, 6])):
        faults, acts = [], []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.random()
            if k < 0.72:
                faults.append({"ppm": rng.randrange(1_000_000), "pick": rng.randrange(1000),
                               "only": rng.choice([None, None, "open", "read", "list", "list", "stat", "write"]),
                               "sticky": rng.random() < 0.1,
                               "part": rng.choice([0, 0, 0.3, 0.9])})  # fmt: skip
            else:
                acts.append({"ppm": position(rng), "kind": rng.choice(ASYNC)})
        variants.append({"faults": faults, "acts": acts})
    for _ in range(2):
        o = opts(rng)
        o.setdefault("chunk", rng.choice([1, 3, 50]))
        variants.append({"opts": o, "slow": rng.randrange(1_000_000)})
    sc["variants"] = variants
    return sc


def choose(ops, f, main=None):
    """A concrete fault for the operations of the fault-free run."""
    if f["pick"] % 7:
        # Rarely the read of the main file, which belongs to the caller.
        ops = [h for h in ops if h["path"] != main] or ops
    mine = [h for h in ops if f["only"] in (None, h["op"])] or ops
    if not mine:
        return None
    if f["pick"] % 2:
        # One file among all of them, not the one read in most pieces.
        paths = sorted({str(h["path"]) for h in mine})
        if f["pick"] % 3 == 0:
            paths = [p for p in paths if p.endswith(".yaml")] or paths
        mine = [h for h in mine if str(h["path"]) == paths[f["pick"] // 2 % len(paths)]]
    h = mine[place(f["ppm"], len(mine))]
    kinds = FILE_FAULTS.get(h["op"], ["eio"])
    if f["pick"] % 5 == 0:
        kinds = ASYNC
    fault = {"op": "any", "n": h["n"], "kind": kinds[f["pick"] // 5 % len(kinds)]}
    if h["op"] in ("write", "stdout") and f["part"]:
        fault["part"] = f["part"]
    if h["op"] == "open" and f["pick"] % 3 == 0 and "r" in str(h.get("mode", "")):
        fault["phase"] = "after"
    if f["sticky"]:
        fault["sticky"] = True
        fault["op"], fault["n"] = h["op"], sum(1 for x in ops if x["op"] == h["op"] and x["n"] < h["n"])
    return fault


def check(sc, ex):
    spec = {"files": sc["files"], "opts": sc["opts"], "snapshot": True}
    ref = ex({**spec, "phases": [{"jobs": [sc["job"]]}], "lines": True})
    want = ref["jobs"]["j"]
    ops = [h for h in ref["history"]]
    bad = []
    for v in sc["variants"]:
        if "opts" in v:
            job = dict(sc["job"])
            slow = choose(ops, {"ppm": v["slow"], "pick": 1, "only": None, "sticky": False, "part": 0})
            if slow:
                job["faults"] = [{"op": "any", "n": slow["n"], "kind": "slow", "delay": 30.0}]
            res = ex({**spec, "opts": v["opts"], "phases": [{"jobs": [job]}]})
            d = diff(outcome(res["jobs"]["j"]), outcome(want)) or diff(res["files"], ref["files"])
            ex.nontrivial(sc["job"], sc["files"], v)
            if d:
                bad.append(("benign-condition", {"opts": v["opts"], "difference": d}))
            continue
        job = dict(sc["job"])
        job["faults"] = [c for c in (choose(ops, f, sc["job"].get("file")) for f in v["faults"]) if c]
        job["acts"] = [{"kind": a["kind"], "step": step_at(a["ppm"], profile(ref, "j"))} for a in v["acts"]]
        res = ex({**spec, "phases": [{"jobs": [job]}]})
        got = res["jobs"]["j"]
        fired = res["fired"]
        ex.probe(f"{'fired' if fired else 'not_fired'}_{got['status']}")
        if fired:
            ex.nontrivial(sc["job"], sc["files"], fired)
        if is_failure(got):
            continue
        skip = ("log",) if got["status"] == "ok" and job.get("handler") == "log" else ()
        d = diff(outcome(got, skip), outcome(want, skip))
        if not d and got["status"] == "exit":
            d = diff(res["files"], ref["files"])
        if d:
            bad.append(("wrong-success", {"fired": fired, "status": got["status"], "difference (faulted != fault-free)": d}))
    return bad
