"""Follow a run of the real code with the reference model of gen/model.py."""

import posixpath

from gen import model
from props.common import *  # noqa: F403


class Mismatch(Exception):
    def __init__(self, cls, **detail):
        super().__init__(cls)
        self.cls = cls
        self.detail = detail


def job_for(proj, jid="m", **kw):
    job = {"id": jid, "kind": "compile", "file": proj["main"], "visitors": ["base"], "vars": proj["vars"], "config": {}}
    job.update(kw)
    return job


def reads_of(res, jid, main):
    """The reads of one job, without that of the main file."""
    opens = [h for h in res["history"] if h["t"] == jid and h["op"] == "open"]
    if opens and opens[0]["path"] == posixpath.normpath(main):
        opens = opens[1:]
    return opens


def main_read(res, jid, main):
    for h in res["history"]:
        if h["t"] == jid and h["op"] == "open" and h["path"] == posixpath.normpath(main):
            return h
    return None


def delivered(h):
    """What a read gave to the program: text, or None if it failed."""
    if h.get("late"):
        raise model.Unknown("an error after the end of the file")
    if not h.get("ok") or not h.get("eof") or h["mode"] not in ("r", "rt", "rb"):
        return None
    data = h["data"].encode("utf-8", "surrogateescape")
    try:
        text = data.decode("utf-8")
    except UnicodeError:
        return None
    return text.replace("\r\n", "\n").replace("\r", "\n")


def env_of(job):
    """The variables of the caller's environment, without the settings."""
    return {k: v for k, v in job.get("env") or [] if k != "mau" and not k.startswith("mau.")}


def calls_of(job):
    out = []
    for caller, callee, args, line, source in job.get("includes") or []:
        args = {k: v for k, v in args} if args else {}
        out.append([caller, callee, args, line, source])
    return out


def follow(proj, res, jid, ex, extra=(), limit=6000, predict_reads=None):
    """Interpret the project with the reads the job really made. Returns the
    prediction and the list of reads, or raises Mismatch."""
    opens = reads_of(res, jid, proj["main"])
    position = [0]
    files = model.files_of(proj)
    texts = {files[n]: t for n, t in proj["trees"].items()}
    for tree in extra:
        texts[model.render(tree)] = tree
    m = model.Model(texts, proj["links"], limit)
    m.site = proj.get("site")

    def reader(uri):
        i = position[0]
        want = posixpath.normpath(uri)
        if i >= len(opens):
            raise Mismatch("not-read", expected=want, after=[h["path"] for h in opens])
        h = opens[i]
        position[0] += 1
        if h["path"] != want:
            raise Mismatch("wrong-read", expected=want, read=h["path"], before=[x["path"] for x in opens[:i]])
        return delivered(h)

    first = main_read(res, jid, proj["main"])
    text = delivered(first) if first else files[proj["main"]]
    out = model.Outcome()
    out.model = m
    if text is None:
        out.stop = model.Stop("main", proj["main"], 0)
        return out, opens
    try:
        out.doc = m.run(proj["main"], text, proj["vars"], reader)
    except model.Stop as stop:
        out.stop = stop
    if position[0] != len(opens):
        raise Mismatch("extra-read", read=[h["path"] for h in opens[position[0] :]], stopped=repr(out.stop))
    return out, opens


def verdict(out, job, parts=("doc", "env", "calls", "where")):
    """Compare a prediction with the outcome of the job."""
    stop = out.stop
    if stop is None:
        if job["status"] != "ok":
            return ("refused", {"status": job["status"], "error": job.get("error")})
        if "doc" in parts:
            got = model.flat(job["out"][0])
            if got != out.doc:
                return ("content", {"difference (mau != model)": diff(got, out.doc)})
        if "calls" in parts:
            want = [[a, b, c, line, a] for a, b, c, line in out.model.calls]
            d = diff(calls_of(job), want)
            if d:
                return ("include-calls", {"difference (mau != model)": d})
        if "env" in parts:
            d = diff(env_of(job), out.model.states[-1])
            if d:
                return ("variables", {"difference (mau != model)": d})
        return None
    if stop.kind == "main":
        return None if is_failure(job) else ("status", {"status": job["status"]})
    if job["status"] != "mau-error":
        return ("not-a-mau-error", {"expected": stop.args, "status": job["status"], "error": job.get("error")})
    if job["error"][1][0] != "ERROR_PARSER":
        return ("not-a-parser-error", {"expected": stop.args, "error": job["error"]})
    if "where" in parts:
        where = job.get("where") or [None, None]
        if stop.kind in ("loop", "read"):
            if where != [stop.source, stop.line]:
                return ("place", {"expected": stop.args, "where": where, "error": job["error"][1][:2]})
        elif where[0] != stop.source or not stop.line <= where[1] < stop.line + stop.span:
            return ("place", {"expected": [*stop.args, stop.span], "where": where, "error": job["error"][1][:2]})
    if "env" in parts:
        d = diff(env_of(job), out.model.states[-1])
        if d:
            return ("variables", {"difference (mau != model)": d, "stopped": stop.args})
    return None


def probes(out, ex):
    ex.probe("model_" + (out.stop.kind if out.stop else "ok"))
    ex.probe("includes", len(out.model.opens))
    if out.model.excluded:
        ex.probe("excluded", out.model.excluded)


def versions(rng, proj, n, knobs=None):
    """Other trees for the Mau files of a project: what an editor saves."""
    out = []
    names = sorted(proj["trees"])
    for _ in range(n):
        name = rng.choice(names)
        m = model.Maker(rng, **(knobs or {}))
        m.counter = 1000 + 100 * len(out)
        m.mau = list(proj["trees"])
        m.n = len(m.mau)
        m.raw = dict(proj["raw"]) or {"r0.txt": ""}
        m.links = dict(proj["links"])
        m.vars = {"v0": 1, "v1": 1, "p0": proj["vars"].get("p0", 1)}
        if m.vars["p0"] == 1:
            m.vars["p0"] = "?"
        m.aliases = 0
        tree = m.tree(name)
        new = {k for k in m.raw if k not in proj["raw"]}
        out.append([name, tree, {k: m.raw[k] for k in new}])
    return out


# -- earlier runs in the same process -------------------------------------------


def past(rng, proj, chance=0.3):
    """What the process did before: runs of the project or of a part of it, with
    other variables, when some files were different, perhaps stopped halfway."""
    if rng.random() >= chance:
        return None
    jobs, before = [], {}
    names = sorted(proj["trees"])
    for _ in range(rng.choice([0, 1, 1, 2])):
        r = rng.random()
        if r < 0.35 and proj["links"]:
            name = rng.choice(sorted(proj["links"]))
            before[name] = rng.choice([None, {"link": rng.choice([*names, "sub", "."])}, {"link": rng.choice(names)}])
        elif r < 0.75:
            name = rng.choice(names)
            before[name] = rng.choice([None, {"tree": versions(rng, proj, 1)[0][1]}, {"swap": rng.choice(["a", "e", "l", "v0", "P"])}])
        elif proj["raw"]:
            name = rng.choice(sorted(proj["raw"]))
            before[name] = rng.choice([None, {"text": "Before\n"}, {"swap": "e"}])
    for _ in range(rng.choice([1, 1, 2, 3])):
        job = {"main": proj["main"] if rng.random() < 0.65 else rng.choice(names), "vars": dict(proj["vars"]), "stop": None}
        if rng.random() < 0.4:
            job["vars"][rng.choice(["v0", "v1"])] = rng.choice(["a1", "b2", "c3"])
        if rng.random() < 0.3:
            if rng.random() < 0.6:
                job["stop"] = {"act": rng.choice(ASYNC), "ppm": rng.randrange(1_000_000)}
            else:
                op = rng.choice(["open", "read"])
                job["stop"] = {"op": op, "n": rng.randrange(8), "kind": rng.choice(FILE_FAULTS[op] + ASYNC)}
        jobs.append(job)
    return {"jobs": jobs, "before": before}


MTIME = 1_690_000_000


def after(past, files, phase, ex, spec, proj):
    """The files to start with and the phases that end with this one."""
    if not past:
        return {"files": files, "phases": [phase]}
    start, edits = dict(files), []
    for name, was in past["before"].items():
        now = files.get(name)
        # Nothing to put back where the check took the file away.
        if not isinstance(now, str) and not (isinstance(now, dict) and "link" in now):
            continue
        if was is None:
            del start[name]
        elif "link" in was:
            start[name] = was
        elif "tree" in was:
            start[name] = model.render(was["tree"])
        elif "text" in was:
            start[name] = was["text"]
        elif isinstance(now, str):
            start[name] = now.replace(was["swap"], was["swap"].swapcase())
        else:
            continue
        if isinstance(now, str):
            edits.append({"how": "replace", "path": name, "data": now, "mtime": MTIME})
        else:
            edits.append({"how": "link", "path": name, "target": now["link"]})
    jobs = []
    for k, p in enumerate(past["jobs"]):
        job = job_for(proj, f"past{k}", file=p["main"], vars=p["vars"])
        stop = p["stop"]
        if stop and "act" in stop:
            ref = ex({**spec, "files": start, "phases": [{"jobs": [job]}]})
            job["acts"] = [{"kind": stop["act"], "step": 1 + place(stop["ppm"], max(1, ref["steps"][job["id"]]))}]
        elif stop:
            job["faults"] = [stop]
        jobs.append(job)
    ex.probe("with_past")
    phases = [{"jobs": [j]} for j in jobs]
    if edits:
        phases.append({"edits": edits})
    return {"files": start, "phases": [*phases, phase]}


def fired_now(res, jobs):
    """The faults that hit the runs that are judged."""
    ids = {j["id"] for j in jobs}
    return [f for f in res["fired"] if f["job"] in ids]
