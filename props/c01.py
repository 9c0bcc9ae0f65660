"""C01: concurrent compilations in one process do not influence each other."""

from props.common import *  # noqa: F403

RUNS = {"quick": 450, "thorough": 30000}
RULE = (
    "A scenario is 2-4 compilations (colliding names, shared files and templates, some erroneous, some with "
    "injected faults or interrupted) run as threads of one process under 1-3 drawn schedules of 1-200 "
    "preemptions each; every one is also run alone in a fresh process. Non-trivial: a schedule with at least "
    "one real switch inside two overlapping compilations; counted by distinct interleavings of distinct sets."
)


def make(rng, index, tier):
    files, jobs = {}, []
    sc = {"files": files, "opts": opts(rng), "configs": {}}
    n = rng.choice([2, 2, 2, 3, 4])
    first = None
    # Some callers have no environment to give.
    bare = rng.random() < 0.08
    deep = rng.random() < 0.07
    for k in range(n):
        same = rng.random() if first else 1
        if same < 0.15:
            p = first
        elif same < 0.45:
            p = sibling(rng, first, k)
            for name, text in p["files"].items():
                files.setdefault(name, text)
        else:
            p = project(rng, prefix="" if k == 0 else f"p{k}/", errors=0.25)
            for name, text in p["files"].items():
                files.setdefault(name, text)
        first = first or p
        job = job_of(rng, p, f"j{k}")
        if rng.random() < 0.3:
            job["tree"] = True
        if bare and rng.random() < 0.8:
            job["bare"] = True
        if deep and rng.random() < 0.7:
            job["file"] = f"deep{k}.mau"
            nest(rng, files, job["file"], f"deep{k}-")
        if p is first and rng.random() < 0.3:
            sc["configs"]["c"] = p["config"]
            job["config_ref"] = "c"
        r = rng.random()
        if r < 0.2:
            op = rng.choice(["open", "read", "list", "stat"])
            job["faults"] = [{"op": op, "n": rng.randrange(6), "kind": rng.choice(FILE_FAULTS[op])}]
        elif r < 0.32 and k:
            job["acts"] = [{"ppm": position(rng), "kind": rng.choice(ASYNC)}]
            job["disturber"] = True
        jobs.append(job)
    # A job with the configuration of another one keeps its own.
    sc["jobs"] = jobs
    sc["schedules"] = [schedule(rng, n) for _ in range(rng.choice([1, 2, 3]))]
    return sc


def schedule(rng, n):
    """Preemptions as [task, position in it, target]."""
    k = rng.choice([1, 2, 3, 5, 10, 30, 100, 200])
    style = rng.random()
    out = []
    for _ in range(k):
        t = rng.randrange(n)
        if style < 0.8:
            at = position(rng)
        elif style < 0.9:
            # A burst.
            at = (300_000 + rng.randrange(3000)) % 1_000_000
        else:
            at = int(rng.random() ** 3 * 1_000_000)
        out.append([t, at, rng.choice([x for x in range(n) if x != t])])
    return {"first": rng.randrange(n), "switches": out}


def check(sc, ex):
    base = {"files": sc["files"], "opts": sc["opts"], "configs": sc["configs"]}
    alone = []
    for job in sc["jobs"]:
        j = {k: v for k, v in job.items() if k != "acts"}
        res = ex({**base, "phases": [{"jobs": [j]}], "lines": True})
        alone.append(res)
    bad = []
    n = len(sc["jobs"])
    for s in sc["schedules"]:
        jobs = []
        for job, res in zip(sc["jobs"], alone):
            job = dict(job)
            if "acts" in job:
                job["acts"] = [{"kind": a["kind"], "step": step_at(a["ppm"], profile(res, job["id"]))} for a in job["acts"]]
            jobs.append(job)
        switches = [
            [t, step_at(p, profile(alone[t], sc["jobs"][t]["id"])), to % n]
            for t, p, to in s["switches"] if t < n
        ]  # fmt: skip
        res = ex({**base, "phases": [{"jobs": jobs, "switches": switches, "first": s["first"] % n}]})
        ex.probe("switches", len(res["trace"]))
        if res["trace"]:
            ex.nontrivial(res["trace"], res["points"][:50], sc["jobs"])
        for job, one in zip(sc["jobs"], alone):
            got, want = res["jobs"][job["id"]], one["jobs"][job["id"]]
            if job.get("acts"):
                # Stopped somewhere else if the code shares work between runs.
                ex.probe("disturbed")
                if got["status"] in ("budget", "deadlock"):
                    bad.append(("stuck", {"job": job["id"], "status": got["status"]}))
                continue
            ex.probe("compared_" + want["status"])
            d = diff(outcome(got), outcome(want))
            if d:
                bad.append(("interference", {"job": job["id"], "difference (concurrent != alone)": d, "switches": res["trace"][:20]}))
    return bad
