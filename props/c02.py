"""C02: a compilation leaves nothing behind that changes a later one."""

from props.common import *  # noqa: F403

RUNS = {"quick": 900, "thorough": 40000}
RULE = (
    "A scenario is a history of 1-5 compilations in one simulated process (valid, erroneous, with "
    "injected file errors, interrupted at a drawn step), with files edited in between (often keeping "
    "size and modification time), followed by a target compilation; the target is also run in a fresh "
    "process on the same files. Non-trivial: the history contains a run that failed or was interrupted, "
    "an edit, or a run of another project; counted by distinct (history, target) documents."
)


def make(rng, index, tier):
    shared = rng.random() < 0.5
    projects = []
    files = {}
    for k in range(rng.choice([1, 2, 2, 3])):
        if k and rng.random() < 0.6:
            p = sibling(rng, projects[0], k)
            files.update({name: text for name, text in p["files"].items() if name not in files})
            projects.append(p)
            continue
        p = project(rng, prefix="" if k == 0 else f"p{k}/", errors=0.1 if k == 0 else 0.35)
        files.update(p["files"])
        projects.append(p)
    target = projects[0]
    if rng.random() < 0.2:
        # A history on the included files alone, as main documents.
        for name in sorted(target["files"]):
            if name.endswith(".mau") and name != target["main"]:
                projects.append(dict(target, main=name, vars={}))
    scenario = {"files": files, "opts": opts(rng), "phases": [], "configs": {}}
    if rng.random() < 0.3:
        scenario["configs"]["shared"] = target["config"]
    n = rng.choice([1, 1, 2, 3, 4, 5])
    # What grows a little with each run shows after many.
    worn = rng.random() < 0.05
    if worn:
        n = rng.choice([16, 30, 40])
        worn = project(rng, prefix="w/", errors=0.7, size=3, depth=3, incl=0.6)
        if rng.random() < 0.5:
            inner = rng.choice(["{nope}\n", "++++\nopen\n", "[footnote](none)\n", "[header](none, x)\n", "<< mau:w/none.mau\n"])
            worn["files"]["w/inner.mau"] = inner
            call = "<< mau:w/inner.mau\n"
            worn["files"][worn["main"]] = "text\n\n" + rng.choice([call, f"oooo\n{call}oooo\n"])
        files.update({name: text for name, text in worn["files"].items() if name not in files})
    # Some callers have no environment to give.
    bare = rng.random() < 0.12
    current = dict(files)
    for i in range(n):
        p = worn or (rng.choice(projects) if not shared else rng.choice(projects[:2]))
        job = job_of(rng, p, f"h{i}")
        if scenario["configs"] and p is target:
            job["config_ref"] = "shared"
        if bare and rng.random() < 0.8:
            job["bare"] = True
        if rng.random() < 0.4:
            kind = rng.choice(ASYNC)
            job["acts"] = [{"ppm": position(rng), "kind": kind}]
        if rng.random() < 0.3:
            op = rng.choice(["open", "read", "list", "stat"])
            job["faults"] = [{"op": op, "n": rng.randrange(8), "kind": rng.choice(FILE_FAULTS[op] + ASYNC)}]
        scenario["phases"].append({"jobs": [job]})
        if rng.random() < 0.45:
            edits = []
            for _ in range(rng.choice([1, 1, 2])):
                name = rng.choice(sorted(f for f in target["files"] if current.get(f) is not None and isinstance(current[f], str)) or [target["main"]])
                if rng.random() < 0.12 and name != target["main"]:
                    edit = {"how": "delete", "path": name}
                else:
                    edit = {
                        "how": rng.choice(["replace", "inplace"]),
                        "path": name,
                        "data": mutate(rng, current.get(name) or ""),
                        "mtime": rng.choice([1_690_000_000, 1_690_000_000, 1_600_000_000, 1_800_000_000]),
                    }
                edits.append(edit)
                current = apply_edits(current, [edit])
            if rng.random() < 0.3:
                # ... and back again.
                edits += [{"how": "replace", "path": e["path"], "data": files[e["path"]], "mtime": 1_690_000_000} for e in edits if e["path"] in files]
            scenario["phases"].append({"edits": edits})
    job = job_of(rng, target, "target", tree=rng.random() < 0.3)
    if bare:
        job["bare"] = True
    if scenario["configs"]:
        job["config_ref"] = "shared"
    scenario["target"] = job
    return scenario


def check(sc, ex):
    phases = []
    files = dict(sc["files"])
    interesting = False
    calm = None
    if any("acts" in j for p in sc["phases"] for j in p.get("jobs", ())):
        plain = [
            {"jobs": [{k: v for k, v in j.items() if k != "acts"} for j in p["jobs"]]} if "jobs" in p else p
            for p in sc["phases"]
        ]
        calm = ex({**base(sc), "phases": plain, "lines": True})
    for p in sc["phases"]:
        if "edits" in p:
            files = apply_edits(files, p["edits"])
            interesting = True
            phases.append(p)
            continue
        jobs = []
        for j in p["jobs"]:
            j = dict(j)
            if "acts" in j:
                j["acts"] = [{"kind": a["kind"], "step": step_at(a["ppm"], profile(calm, j["id"]))} for a in j["acts"]]
            jobs.append(j)
        phases.append({"jobs": jobs})
    res = ex({**base(sc), "phases": phases + [{"jobs": [sc["target"]]}]})
    for jid, job in res["jobs"].items():
        if jid != "target":
            ex.probe("history_" + job["status"])
            interesting |= is_failure(job)
    fresh = ex({**base(sc), "files": files, "phases": [{"jobs": [sc["target"]]}]})
    got, want = res["jobs"]["target"], fresh["jobs"]["target"]
    ex.probe("target_" + want["status"])
    if interesting or len(sc["phases"]) > 1:
        ex.nontrivial(sc["phases"], sc["target"], sc["files"])
    d = diff(outcome(got), outcome(want))
    if d:
        return [("leftover", {"difference (after history != fresh process)": d})]
    return []


def base(sc):
    return {"files": sc["files"], "opts": sc["opts"], "configs": sc.get("configs", {})}
