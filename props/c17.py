"""C17: content excluded by a false condition has no effect."""

from props.modelcheck import *  # noqa: F403
from props import modelcheck

RUNS = {"quick": 3000, "thorough": 150000}
RULE = (
    "Two kinds of scenarios. (a) A model project in which conditions guard elements of every kind; many excluded ones are "
    "hostile (missing, undecodable or recursive includes, undefined variables, footnotes and header links, "
    "duplicate definitions), some with faults waiting at their files, some after other runs "
    "in the process. The model, which ignores them, must agree with the files opened, the document, the "
    "variables and the include calls. (b) A project in the full language with excluded elements of every kind "
    "in its files: with blank lines in their place the outcome and the files opened must be the same. Non-trivial: "
    "at least one excluded element was reached; counted by distinct projects."
)


def make(rng, index, tier):
    if rng.random() < 0.35:
        proj = project(rng, errors=0, excl=rng.choice([0.3, 0.6]), size=rng.choice([2, 4, 6, 8]), incl=rng.choice([0, 0.2]))
        proj["vars"].setdefault("v1", "1")
        files = {"bad.bin": "\udcff\n", **proj["files"]}
        return {"kind": "free", "files": files, "job": job_of(rng, proj, "m", tree=rng.random() < 0.3), "opts": opts(rng)}
    proj = model.make(
        rng, files=rng.choice([1, 2, 3, 4]), loops=0.02, aliases=0.05, conds=rng.choice([0.2, 0.5, 0.8]), pe=0.1,
        labels=rng.choice([0.1, 0.4]), hostile=rng.choice([0.15, 0.3, 0.5]), size=rng.choice([3, 4, 6]),
    )  # fmt: skip
    sc = {"proj": proj, "opts": opts(rng), "traps": [], "past": past(rng, proj, 0.2)}
    for _ in range(rng.choice([0, 1, 2])):
        path = rng.choice(["evil.mau", "evil.txt", "bad.bin", "absent.mau", "absent.txt"])
        sc["traps"].append({"op": "any" if rng.random() < 0.1 else "open", "path": path, "n": 0, "kind": rng.choice(["eio", "eacces", "interrupt", "memory"])})
    return sc


def whole(text):
    """The marked lines are elements (a shrunk scenario may have cut one)."""
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        if not lines[i].startswith(docs.MARK):
            i += 1
            continue
        j = i
        while j < len(lines) and lines[j].startswith(docs.MARK):
            j += 1
        group = [x[1:] for x in lines[i:j]]
        fences = [k for k, x in enumerate(group) if len(x) == 4 and len(set(x)) == 1]
        starts = [x for x in group if x and x[0] not in "[." and not x.startswith("@if")]
        if sum(x.startswith("@if x9") for x in group) != 1 or not starts or i < 2 or lines[i - 2 : i] != [":x9:on", ""] or "".join(lines[j : j + 1]):
            return False
        if fences and (len(fences) != 2 or fences[1] != len(group) - 1):
            return False
        i = j
    return True


def check_free(sc, ex):
    """Blank lines in place of the excluded elements: the same lines, no effect."""
    if not all(whole(v) for k, v in sc["files"].items() if k.endswith(".mau")):
        return []
    runs = []
    for text in (docs.unmarked, docs.without):
        files = {k: text(v) if isinstance(v, str) and k.endswith(".mau") else v for k, v in sc["files"].items()}
        res = ex({"files": files, "opts": sc["opts"], "phases": [{"jobs": [sc["job"]]}]})
        runs.append((outcome(res["jobs"]["m"]), [h["path"] for h in res["history"] if h["op"] == "open"]))
    n = sum(v.count(docs.MARK) for v in sc["files"].values() if isinstance(v, str))
    ex.probe("free_" + runs[0][0]["status"])
    if n:
        ex.nontrivial(sc["files"])
    d = diff(runs[0][0], runs[1][0]) or diff(runs[0][1], runs[1][1], "opened")
    return [("excluded-content", {"difference (with excluded elements != with blank lines)": d})] if d else []


def check(sc, ex):
    if sc.get("kind") == "free":
        return check_free(sc, ex)
    proj = sc["proj"]
    job = job_for(proj, faults=sc["traps"])
    spec = {"opts": sc["opts"], "budget": 8_000_000}
    res = ex({**spec, **after(sc.get("past"), model.files_of(proj), {"jobs": [job]}, ex, spec, proj)})
    got = res["jobs"]["m"]
    try:
        out, opens = modelcheck.follow(proj, res, "m", ex)
    except (model.Unknown, model.TooBig):
        return []
    except Mismatch as exc:
        return [(exc.cls, {**exc.detail, "status": got["status"], "error": got.get("error")})]
    probes(out, ex)
    if out.model.excluded:
        ex.nontrivial(proj)
    v = verdict(out, got)
    return [v] if v else []
