"""C06: an include contributes exactly what its read delivered."""

from props.modelcheck import *  # noqa: F403
from props import modelcheck

RUNS = {"quick": 2600, "thorough": 120000}
RULE = (
    "Two kinds of scenarios. (a) A model project whose files are replaced, rewritten in place, truncated, "
    "extended or deleted by an editor at drawn operations and steps of the run, with reads split in pieces: "
    "the reference model is fed with the reads the run made and must ask for the same files in the same "
    "order, once per directive, and produce the same document; a part comes after other "
    "runs of the process on other versions of the files. (b) A project in the full language under the "
    "same editor; its recorded reads are then delivered again to a fresh process on unchanging files, which "
    "must give the same outcome. Non-trivial: an edit took place during the run; counted by distinct "
    "(project, edits)."
)


def raw_edit(rng, name, text):
    how = rng.choice(["replace", "inplace", "append", "truncate", "delete"])
    e = {"how": how, "path": name}
    if how in ("replace", "inplace"):
        e["data"] = rng.choice(["New line\n", "New\n\n{v0}\n", "", text * 3, text.swapcase(), "x" * 9000, "N\x0cM\u2028\n"])
    elif how == "append":
        e["data"] = "tail\n"
    elif how == "truncate":
        e["size"] = rng.randrange(4)
    return e


def trigger(rng, main):
    k = rng.random()
    if k < 0.45:
        return {"op": "open", "n": rng.randrange(8)}
    if k < 0.85:
        return {"op": "read", "n": rng.randrange(24)}
    return {"op": "any", "n": rng.randrange(40)}


def make(rng, index, tier):
    if rng.random() < 0.3:
        return make_free(rng)
    proj = model.make(
        rng, files=rng.choice([1, 2, 3, 4]), loops=0.03, aliases=rng.choice([0, 0.2]), conds=0.2, pe=0.1,
        labels=0.1, size=rng.choice([2, 3, 4]),
    )  # fmt: skip
    sc = {"kind": "model", "proj": proj, "opts": opts(rng), "edits": [], "versions": [], "acts": [], "past": past(rng, proj, 0.25)}
    vs = versions(rng, proj, rng.choice([0, 1, 2]), {"loops": 0.02, "size": 3})
    sc["versions"] = [v[1] for v in vs]
    for name, tree, raws in vs:
        for k, text in raws.items():
            proj["raw"].setdefault(k, text)
    for name, tree, raws in vs:
        sc["edits"].append({**trigger(rng, name), "how": "replace", "path": name, "tree": tree})
    for _ in range(rng.choice([0, 1, 2])):
        if proj["raw"]:
            name = rng.choice(sorted(proj["raw"]))
            sc["edits"].append({**trigger(rng, name), **raw_edit(rng, name, proj["raw"][name])})
    for e in list(sc["edits"]):
        if rng.random() < 0.3:
            # ... between two instructions instead.
            sc["acts"].append({"ppm": position(rng), "edit": {k: v for k, v in e.items() if k not in ("op", "n")}})
            sc["edits"].remove(e)
    return sc


def make_free(rng):
    proj = project(rng, errors=0.05, size=rng.choice([3, 5, 8]), depth=rng.choice([1, 2, 3]), incl=rng.choice([0, 0.3, 0.5]))
    names = [n for n in sorted(proj["files"]) if n.endswith((".mau", ".txt")) and n != proj["main"]]
    job = job_of(rng, proj, "m", visitors=rng.choice([["base"], ["html"]]))
    sc = {"kind": "free", "files": proj["files"], "job": job, "opts": opts(rng), "edits": []}
    for _ in range(rng.choice([1, 2, 3])):
        if not names:
            break
        name = rng.choice(names)
        if name.endswith(".txt") or rng.random() < 0.3:
            e = raw_edit(rng, name, proj["files"][name])
        else:
            e = {"how": rng.choice(["replace", "inplace"]), "path": name, "data": mutate(rng, proj["files"][name])}
        sc["edits"].append({**trigger(rng, name), **e})
    return sc


def real_edit(e):
    e = dict(e)
    if "tree" in e:
        e["data"] = model.render(e.pop("tree"))
    return e


def check(sc, ex):
    return check_free(sc, ex) if sc["kind"] == "free" else check_model(sc, ex)


def check_model(sc, ex):
    proj = sc["proj"]
    job = job_for(proj, edits=[real_edit(e) for e in sc["edits"]])
    spec = {"files": model.files_of(proj), "opts": sc["opts"], "budget": 8_000_000}
    if sc["acts"]:
        steps = profile(ex({**spec, "phases": [{"jobs": [job]}], "lines": True}), "m")
        job["acts"] = [{"kind": "edit", "step": step_at(a["ppm"], steps), "edit": real_edit(a["edit"])} for a in sc["acts"]]
    res = ex({**spec, **after(sc.get("past"), spec["files"], {"jobs": [job]}, ex, spec, proj)})
    got = res["jobs"]["m"]
    if any(k.startswith("edit_") for k in res["counts"]):
        ex.nontrivial(proj, sc["edits"], sc["acts"], sc["opts"])
    try:
        out, opens = modelcheck.follow(proj, res, "m", ex, extra=sc["versions"])
    except model.Unknown:
        ex.probe("torn")
        return []
    except model.TooBig:
        return []
    except Mismatch as exc:
        return [(exc.cls, {**exc.detail, "status": got["status"], "error": got.get("error")})]
    probes(out, ex)
    v = verdict(out, got)
    return [v] if v else []


def check_free(sc, ex):
    job = sc["job"]
    spec = {"files": sc["files"], "opts": sc["opts"]}
    res = ex({**spec, "phases": [{"jobs": [dict(job, edits=sc["edits"])]}]})
    got = res["jobs"]["m"]
    if any(k.startswith("edit_") for k in res["counts"]):
        ex.nontrivial(sc["files"], sc["edits"], sc["opts"])
    serve = {}
    for h in res["history"]:
        if h["op"] == "open" and (h["mode"] in ("r", "rt", "rb")) and h["path"].endswith((".mau", ".txt")):
            serve.setdefault(h["path"], []).append(h["data"] if h["ok"] else None)
    again = ex({**spec, "phases": [{"jobs": [dict(job, serve=serve)]}]})["jobs"]["m"]
    ex.probe("replayed_" + got["status"])
    d = diff(outcome(got), outcome(again))
    if d:
        return [("not-the-reads", {"difference (edited run != its reads delivered again)": d})]
    # The inclusions listed are the reads that were made.
    return []
