"""C07: an unreadable include is a Mau error at the right place."""

from props.modelcheck import *  # noqa: F403
from props import modelcheck

RUNS = {"quick": 2600, "thorough": 120000}
RULE = (
    "A scenario is a model project with a read fault (errno at open, before or after it took effect, errno "
    "at the n-th read, invalid UTF-8 anywhere in the file, missing file, directory, file deleted or replaced "
    "by a directory during the run) at a drawn inclusion of the fault-free interpretation, in a fresh process or after runs that could read the files. The model gives the "
    "directive that must be reported. Non-trivial: the run stopped at a read; counted by distinct (project, "
    "fault)."
)
ERRS = ["enoent", "eacces", "eio", "emfile", "enomem", "estale", "enotdir", "eloop", "eisdir", "etimedout", "enametoolong"]
BROKEN = ["\udcff", "ok\n\udcc3", "\udce9t\udce9\n", "\udced\udca0\udc80\n", "a" * 9000 + "\udcfe\n", "x\n" * 40 + "\udc80"]


def make(rng, index, tier):
    proj = model.make(
        rng, files=rng.choice([1, 2, 3, 4, 5]), loops=0.02, aliases=rng.choice([0, 0.3]), conds=rng.choice([0, 0.3]),
        pe=0.1, labels=0.15, missing=rng.choice([0, 0, 0.1]), size=rng.choice([2, 3, 4]),
    )  # fmt: skip
    sc = {"proj": proj, "opts": opts(rng), "faults": [], "threads": rng.choice([1, 1, 1, 2])}
    for _ in range(rng.choice([1, 1, 1, 2])):
        sc["faults"].append({
            "at": rng.randrange(1_000_000),
            "how": rng.choice(["open", "open", "open-after", "read", "read", "bytes", "bytes", "missing", "dir", "deleted"]),
            "kind": rng.choice(ERRS), "n": rng.choice([0, 0, 1, 2, 5]), "bytes": rng.randrange(len(BROKEN)),
        })  # fmt: skip
    if sc["threads"] == 2:
        sc["switches"] = [[rng.randrange(2), position(rng), rng.randrange(2)] for _ in range(rng.choice([1, 3, 20]))]
    sc["past"] = past(rng, proj, 0.25)
    return sc


def check(sc, ex):
    proj = sc["proj"]
    want = model.predict(proj, limit=6000)
    reads = want.model.opens
    files = model.files_of(proj)
    faults, edits = [], []
    for f in sc["faults"]:
        if not reads:
            break
        i = place(f["at"], len(reads))
        path = reads[i]
        nth = sum(1 for p in reads[:i] if p == path)
        how = f["how"]
        if how in ("open", "open-after"):
            faults.append({"op": "open", "path": path, "n": nth, "kind": f["kind"], **({"phase": "after"} if how != "open" else {})})
        elif how == "read":
            faults.append({"op": "read", "path": path, "n": f["n"] + nth, "kind": f["kind"]})
        elif how == "deleted":
            edits.append({"op": "open", "on": path, "n": nth, "how": "delete", "path": path})
        elif path in files and isinstance(files[path], str):
            if how == "bytes":
                files[path] = BROKEN[f["bytes"]]
            elif how == "missing":
                del files[path]
            else:
                files[path] = None
    opts_ = dict(sc["opts"])
    jobs = [job_for(proj, "m0", faults=faults, edits=edits)]
    if sc["threads"] == 2:
        jobs.append(job_for(proj, "m1"))
    spec = {"files": files, "opts": opts_, "budget": 8_000_000}
    switches = switches_at(ex, spec, jobs, sc.get("switches"))
    phase = {"jobs": jobs, "switches": switches}
    res = ex({**spec, **after(sc.get("past"), files, phase, ex, spec, proj)})
    bad = []
    for job in jobs:
        got = res["jobs"][job["id"]]
        try:
            out, opens = modelcheck.follow(proj, res, job["id"], ex)
        except (model.Unknown, model.TooBig):
            ex.probe("unknown")
            continue
        except Mismatch as exc:
            bad.append((exc.cls, {**exc.detail, "status": got["status"], "error": got.get("error")}))
            continue
        probes(out, ex)
        if out.stop and out.stop.kind == "read":
            ex.nontrivial(proj, sc["faults"], opts_)
        if out.stop is None and got["status"] == "ok":
            continue
        v = verdict(out, got, parts=("where",))
        if not v and out.stop.kind == "read":
            text = got["error"][1][1]
            if out.stop.uri not in text:
                v = ("path-missing", {"expected": out.stop.uri, "text": text})
            elif got["log"] and [x[0] for x in got["log"]] != ["parser"]:
                v = ("report", {"log": got["log"]})
        if v:
            bad.append((v[0], {**v[1], "job": job["id"], "fired": fired_now(res, jobs)}))
    return bad
