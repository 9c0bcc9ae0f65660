"""C11: rendering does not change the parsed document."""

from props.common import *  # noqa: F403

RUNS = {"quick": 700, "thorough": 40000}
RULE = (
    "A scenario is one parsed document (or its tokens) and a history of renderings and parsings of it: by "
    "several visitors and visitor objects, one after the other and interleaved at drawn steps, some of them "
    "interrupted, out of memory or hit by faults on template files, with the source files deleted or changed "
    "after the parsing. Each of them is compared with the same rendering of a freshly parsed copy in a "
    "process of its own, and the tree, tokens and variables with their initial state. Non-trivial: at least "
    "two renderings or parsings of the same object; counted by distinct (document, history)."
)
VIS = ["html", "html", "base", "tex", "yaml"]


def make(rng, index, tier):
    tokens = rng.random() < 0.3
    proj = project(rng, errors=0.08 if tokens else 0, incl=rng.choice([0, 0, 0.3]))
    share = {"id": "s", "kind": "share", "name": "x", "file": proj["main"], "config": proj["config"], "vars": proj["vars"]}
    if tokens:
        share["to"] = "tokens"
    sc = {"files": proj["files"], "share": share, "tokens": tokens, "groups": [], "opts": opts(rng)}
    n = 0
    for g in range(rng.choice([1, 2, 2, 3])):
        jobs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n += 1
            if tokens:
                job = {"id": f"p{n}", "kind": "reparse", "name": "x"}
            else:
                job = {"id": f"r{n}", "kind": "render", "name": "x", "visitor": rng.choice(VIS)}
                k = rng.random()
                if k < 0.2:
                    job["own_mau"] = True
                elif k < 0.35:
                    job["instance"] = rng.choice([1, 2])
                if rng.random() < 0.1:
                    job["part"] = "toc"
            if rng.random() < 0.35:
                job["acts"] = [{"ppm": position(rng), "kind": rng.choice(ASYNC)}]
            if rng.random() < 0.2:
                op = rng.choice(["open", "read", "list", "stat"])
                job["faults"] = [{"op": op, "n": rng.randrange(5), "kind": rng.choice(FILE_FAULTS[op] + ASYNC)}]
            jobs.append(job)
        sw = [[rng.randrange(len(jobs)), position(rng), rng.randrange(len(jobs))] for _ in range(rng.choice([0, 1, 3, 6]))] if len(jobs) > 1 else []
        sc["groups"].append({"jobs": jobs, "ppm": sw})
    if not tokens and rng.random() < 0.4:
        edits = []
        for f in sorted(proj["files"]):
            if f.endswith((".mau", ".txt")) and rng.random() < 0.6:
                edits.append({"how": "delete", "path": f} if rng.random() < 0.5 else {"how": "replace", "path": f, "data": "Changed *text*\n"})
        sc["edits"] = edits
    return sc


def plain_job(job):
    """The same rendering undisturbed, with a handler of its own."""
    job = {k: v for k, v in job.items() if k not in ("acts", "faults", "own_mau", "instance")}
    return {**job, "own_mau": True} if job["kind"] == "render" else job


def key(job):
    return "|".join([job.get("visitor", "parse"), job.get("part", "")])


def check(sc, ex):
    spec = {"files": sc["files"], "opts": sc["opts"]}
    share = {"jobs": [sc["share"]]}
    dump = {"id": "d", "kind": "dump", "name": "x"}
    fresh, steps = {}, {}
    for g in sc["groups"]:
        for job in g["jobs"]:
            k = key(job)
            if k not in fresh:
                res = ex({**spec, "phases": [share, {"jobs": [plain_job(job)]}], "lines": True})
                if res["jobs"]["s"]["status"] != "ok":
                    ex.probe("document_fails")
                    return []
                fresh[k] = res["jobs"][job["id"]]
                steps[k] = profile(res, job["id"])
    phases = [share, {"jobs": [{**dump, "id": "d0"}]}]
    if sc.get("edits"):
        phases.append({"edits": sc["edits"]})
    uses = 0
    for n, g in enumerate(sc["groups"]):
        jobs = []
        for job in g["jobs"]:
            job = dict(job)
            if "acts" in job:
                job["acts"] = [{"kind": a["kind"], "step": step_at(a["ppm"], steps[key(job)])} for a in job["acts"]]
            jobs.append(job)
        uses += len(jobs)
        switches = [[i % len(jobs), step_at(p, steps[key(jobs[i % len(jobs)])]), t % len(jobs)] for i, p, t in g["ppm"]]
        phases.append({"jobs": jobs, "switches": switches})
    # Once more, in peace.
    last = {}
    for k, job in {key(j): j for g in sc["groups"] for j in g["jobs"]}.items():
        last["z" + k] = k
        phases.append({"jobs": [{**plain_job(job), "id": "z" + k}]})
    phases.append({"jobs": [{**dump, "id": "d1"}]})
    res = ex({**spec, "phases": phases})
    if uses > 1 or res["fired"]:
        ex.nontrivial(sc["files"], sc["groups"])
    for f in res["fired"]:
        ex.probe("fired_" + f["kind"])
    bad = []
    for g in sc["groups"]:
        for job in g["jobs"]:
            got = res["jobs"][job["id"]]
            want = fresh[key(job)]
            if ("acts" in job or "faults" in job) and is_failure(got):
                # Disturbed: any visible failure is right.
                ex.probe("disturbed")
                continue
            b = compare(got, want, job)
            if b:
                bad.append(("rendering-differs" if not sc["tokens"] else "parsing-differs", {"job": job, "difference (this run != fresh copy)": b}))
    for z, k in last.items():
        b = compare(res["jobs"][z], fresh[k], {"own_mau": True})
        if b:
            bad.append(("later-run-differs", {"what": k, "difference (last run != fresh copy)": b}))
    d = diff(res["jobs"]["d1"], res["jobs"]["d0"])
    if d:
        bad.append(("document-changed", {"difference (after != before)": d}))
    return bad


def compare(got, want, job):
    # The messages sent by a visitor object go to its own handler.
    own = job.get("own_mau") or job.get("own_env")
    skip = () if own and not job.get("instance") else ("log",)
    a = {k: v for k, v in got.items() if k not in skip}
    b = {k: v for k, v in want.items() if k not in skip}
    return diff(a, b)
