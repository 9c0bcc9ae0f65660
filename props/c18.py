"""C18: the list of include calls matches the files actually read."""

from props.modelcheck import *  # noqa: F403
from props import modelcheck
from props.c06 import real_edit, trigger

RUNS = {"quick": 2600, "thorough": 120000}
RULE = (
    "Model projects (inclusion graphs with repetitions, blocks, conditions, call arguments, edits during the "
    "run, threads, earlier runs in the process) whose include calls must equal those of the model following the recorded reads, and "
    "projects in the full language whose list of included paths must be the recorded opens of Mau files, in "
    "order. Non-trivial: a successful run with at least two inclusions; counted by distinct (project, edits)."
)


def make(rng, index, tier):
    sc = {"opts": opts(rng), "edits": [], "versions": []}
    if rng.random() < 0.3:
        proj = project(rng, errors=0, size=rng.choice([3, 5, 8]), depth=rng.choice([1, 2, 3]), incl=rng.choice([0, 0.3, 0.5]))
        sc.update(kind="free", files=proj["files"], job=job_of(rng, proj, "m", visitors=["base"]), main=proj["main"])
        sc["job"].pop("style", None)
        return sc
    proj = model.make(
        rng, files=rng.choice([2, 3, 4, 5, 6]), loops=0.02, aliases=rng.choice([0, 0.3]), conds=rng.choice([0, 0.3]), pe=0.15,
        labels=0.1, raws=rng.random() < 0.7, size=rng.choice([2, 3, 4]), hollow=rng.choice([0, 0, 0.3]),
    )  # fmt: skip
    sc.update(kind="model", proj=proj, threads=rng.choice([1, 1, 1, 1, 2]))
    if rng.random() < 0.3:
        vs = versions(rng, proj, rng.choice([1, 2]), {"loops": 0.02, "size": 3})
        sc["versions"] = [v[1] for v in vs]
        for name, tree, raws in vs:
            for k, text in raws.items():
                proj["raw"].setdefault(k, text)
            sc["edits"].append({**trigger(rng, name), "how": "replace", "path": name, "tree": tree})
    sc["past"] = past(rng, proj, 0.2)
    if sc["threads"] == 2:
        sc["switches"] = [[rng.randrange(2), position(rng), rng.randrange(2)] for _ in range(rng.choice([1, 3, 20]))]
    return sc


def check(sc, ex):
    if sc["kind"] == "free":
        res = ex({"files": sc["files"], "opts": sc["opts"], "phases": [{"jobs": [sc["job"]]}]})
        got = res["jobs"]["m"]
        if got.get("includes") is None:
            return []
        opens = [h["path"] for h in res["history"] if h["op"] == "open" and h["path"].endswith(".mau")]
        if opens and opens[0] == posixpath.normpath(sc["main"]):
            opens = opens[1:]
        listed = [posixpath.normpath(c[1]) for c in got["includes"]]
        if len(opens) > 1:
            ex.nontrivial(sc["files"])
        ex.probe("free_includes", len(opens))
        if opens != listed:
            return [("include-calls", {"read": opens, "listed": listed})]
        return []
    proj = sc["proj"]
    jobs = [job_for(proj, f"m{i}", edits=[real_edit(e) for e in sc["edits"]] if i == 0 else []) for i in range(sc["threads"])]
    spec = {"files": model.files_of(proj), "opts": sc["opts"], "budget": 8_000_000}
    switches = switches_at(ex, spec, jobs, sc.get("switches"))
    phase = {"jobs": jobs, "switches": switches}
    res = ex({**spec, **after(sc.get("past"), spec["files"], phase, ex, spec, proj)})
    bad = []
    for job in jobs:
        got = res["jobs"][job["id"]]
        try:
            out, opens = modelcheck.follow(proj, res, job["id"], ex, extra=sc["versions"])
        except (model.Unknown, model.TooBig):
            continue
        except Mismatch as exc:
            bad.append((exc.cls, {**exc.detail, "status": got["status"], "error": got.get("error")}))
            continue
        probes(out, ex)
        if out.stop is None and len(out.model.calls) > 1:
            ex.nontrivial(proj, sc["edits"], sc["opts"])
        v = verdict(out, got, parts=("calls",))
        if v:
            bad.append((v[0], {**v[1], "job": job["id"]}))
    return bad
