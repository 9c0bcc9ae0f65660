"""C05: inclusion loops are always detected, acyclic inclusion is accepted."""

from props.modelcheck import *  # noqa: F403
from props import modelcheck

RUNS = {"quick": 3500, "thorough": 150000}
RULE = (
    "A scenario is a project of 1-8 files whose inclusion graph (chains, diamonds, repeated inclusion, loops "
    "of any length, through blocks, conditions, variables, call arguments, aliases such as ./x, a/../x, "
    "symbolic links) is interpreted by a reference model following the reads of the real run; part of the "
    "runs is edited meanwhile, reads files in pieces, runs as several threads, or comes after other runs of the "
    "process, with other files and links then. Non-trivial: at least two "
    "inclusions or a loop; counted by distinct projects and edits."
)


def make(rng, index, tier):
    proj = model.make(
        rng, files=rng.choice([1, 2, 3, 4, 5, 6, 8]), loops=rng.choice([0, 0.1, 0.3, 0.6]), aliases=rng.choice([0, 0.3, 0.7]),
        conds=rng.choice([0, 0.3]), pe=0.1, labels=0.1, size=rng.choice([2, 3, 4]),
    )  # fmt: skip
    if rng.random() < 0.06:
        # A chain as long as those of real books.
        proj = model.make(rng, files=rng.choice([10, 14, 20, 26]), loops=rng.choice([0, 0, 0.05]), aliases=rng.choice([0, 0.3]), conds=0, pe=0.1, labels=0, size=1, depth=1, chain=True)
    sc = {"proj": proj, "opts": opts(rng), "edits": [], "versions": [], "threads": 1}
    if rng.random() < 0.25:
        sc["main"] = rng.choice(["./main.mau", "sub/../main.mau"])
    if rng.random() < 0.35:
        vs = versions(rng, proj, rng.choice([1, 2]), {"loops": 0.4, "size": 3})
        sc["versions"] = [v[1] for v in vs]
        for name, tree, raws in vs:
            for k, text in raws.items():
                proj["raw"].setdefault(k, text)
            at = rng.choice([{"op": "open", "n": rng.randrange(6)}, {"op": "read", "n": rng.randrange(12)}])
            sc["edits"].append({**at, "how": "replace", "path": name, "tree": tree})
    if rng.random() < 0.2:
        sc["threads"] = 2
        sc["switches"] = [[rng.randrange(2), position(rng), rng.randrange(2)] for _ in range(rng.choice([1, 3, 20]))]
    if rng.random() < 0.3:
        sc["past"] = past(rng, proj, 1)
    return sc


def check(sc, ex):
    proj = dict(sc["proj"])
    if sc.get("main"):
        proj = with_main(proj, sc["main"])
    edits = [{**{k: v for k, v in e.items() if k != "tree"}, "data": model.render(e["tree"])} for e in sc["edits"]]
    jobs = [job_for(proj, f"m{i}", edits=edits if i == 0 else []) for i in range(sc["threads"])]
    spec = {"files": files_with(proj), "opts": sc["opts"], "budget": 8_000_000}
    switches = switches_at(ex, spec, jobs, sc.get("switches"))
    phase = {"jobs": jobs, "switches": switches}
    res = ex({**spec, **after(sc.get("past"), spec["files"], phase, ex, spec, proj)})
    bad = []
    for job in jobs:
        got = res["jobs"][job["id"]]
        try:
            out, opens = modelcheck.follow(proj, res, job["id"], ex, extra=sc["versions"])
        except model.Unknown:
            ex.probe("torn")
            continue
        except model.TooBig:
            ex.probe("too_big")
            continue
        except Mismatch as exc:
            bad.append((exc.cls, {**exc.detail, "status": got["status"], "error": got.get("error")}))
            continue
        probes(out, ex)
        if out.stop and out.stop.kind == "loop" or len(opens) > 1:
            ex.nontrivial(sc["proj"], sc["edits"], sc["opts"])
        v = verdict(out, got, parts=("where", "calls") if out.stop else ("calls",))
        if v:
            bad.append((v[0], {**v[1], "job": job["id"]}))
    return bad


def with_main(proj, main):
    proj = dict(proj)
    proj["trees"] = {(main if k == "main.mau" else k): v for k, v in proj["trees"].items()}
    proj["main"] = main
    return proj


def files_with(proj):
    files = model.files_of(proj)
    return {posixpath.normpath(k): v for k, v in files.items()}
