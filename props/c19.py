"""C19: every run ends, within work bounded by the text it read."""

from props.common import *  # noqa: F403
from props.c01 import schedule
from sim.sched import Stalled

RUNS = {"quick": 1200, "thorough": 80000}
RULE = (
    "A scenario is a text that no author wrote: a project truncated, torn between two versions, with flipped, "
    "lost, repeated or foreign bytes (before or during the run), a soup of fragments of the syntax, or a "
    "fragment repeated many times; compiled alone or in threads under drawn interleavings and interrupts. "
    "Every job gets a step budget that is a fixed quadratic polynomial of the bytes it read, and must end; "
    "threads must not wait for each other forever; an interrupt must surface as itself. Non-trivial: every "
    "text; counted by distinct texts (and interrupts)."
)
PIECES = [
    "*", "_", "~", "^", "`", "$", "%", "\\", "[", "]", "(", ")", '"', ",", "{", "}", "{{", "}}", "#", "@", ":", ":+", ":-", "=", "==", "!=", "<<", "<< ", "//", "////",
    "----", "####", "++++", "@@@@", "%%%%", "---", ".", "&", "\t", "\x00", "\r", "\u2028", "é", "日", " ", "  ", "a", "word", "1", "\n", "\n", "\n\n",
    "@if ", "@if v1==1", "@if v1", "@ifnot", "mau:", "raw:", "<< mau:i1.mau", "<< mau", "<< raw:r.txt", "<< toc", "<< footnotes", "<< blockgroup:g", "<< image:", "<< :", "<< mau:i1.mau, call:v1={v1}",
    ":v1:1", ":v1:{v1}", ":v1:", ":v1", ": v1:", "{v1}", "{nope", "[name=a]", "[footnote=n]", "[footnote](n)", "[header](a)", "[class](", '[class]("', "[link](", "[if:v1==1](", "[ifeval:v1](", "[unicode](", "[image](", "[raw](",
    "[engine=source]", "[engine=raw]", "[@source, py]", "[@", "[*", "[#", "[group=g, position=p]", "[isolate=false]", "= H", "== H", "====== H", "* x", "** y", "# x", "## y", ".role text", ". text", ".a", ":1:", ":@:", "\n----\n", "\n[", "]\n", "\n= ", "\n* ", "\n.", "\n:", "\n@",
]  # fmt: skip
PAIRS = [("*", "*"), ("_", "_"), ("`", "`"), ("$", "$"), ("{", "}"), ("{{", "}}"), ("[", "]"), ("(", ")"), ('[class]("', '", c)'), ("[class](", ")"), ("[link](", ")"), ("[if:v1==1](", ", no)"),
         ("\n----\n", "\n----\n"), ("\n####\n", "\n####\n"), ("[isolate=false]\n----\n", "\n----\n"), ("////\n", "\n////\n"), ("\\{", "\\}"), ('"', '"'), ("[[", "]]"), ("*_", "_*"), ("~*", "^")]  # fmt: skip


def corrupt(rng, text, other):
    """What a dying editor or a bad disk leaves."""
    for _ in range(rng.choice([1, 1, 1, 2, 4, 8])):
        n = len(text)
        i = rng.randrange(n + 1)
        k = rng.random()
        if k < 0.2:
            text = text[:i]
        elif k < 0.35:
            # Torn: a part of another version.
            text = text[:i] + other[i:] if rng.random() < 0.6 else text[:i] + other[rng.randrange(len(other) + 1) :]
        elif k < 0.5:
            j = min(n, i + rng.choice([1, 1, 2, 5, 20, 100]))
            text = text[:i] + text[j:]
        elif k < 0.6 and n:
            i = min(i, n - 1)
            text = text[:i] + chr(ord(text[i]) ^ rng.choice([1, 2, 4, 8, 16, 32, 64])) + text[i + 1 :]
        elif k < 0.65:
            text = text[:i] + "\x00" * rng.choice([1, 8, 64]) + text[i + rng.choice([0, 8]) :]
        elif k < 0.75:
            j = min(n, i + rng.choice([1, 10, 40]))
            text = text[:j] + text[i:j] * rng.choice([1, 2, 5]) + text[j:]
        else:
            text = text[:i] + rng.choice(PIECES) + text[i:]
    # Characters that are not text.
    return text.encode("utf-8", "replace").decode("utf-8")


def soup(rng):
    return "".join(rng.choice(PIECES) for _ in range(rng.choice([1, 2, 4, 8, 15, 30, 60])))


def tower(rng):
    """Repetition and nesting: work that grows too fast shows early."""
    n = rng.choice([4, 8, 12, 16, 20, 24, 32])
    r = rng.random()
    if r < 0.4:
        unit = "".join(rng.choice(PIECES) for _ in range(rng.choice([1, 2, 3, 4])))
        return rng.choice(["", "", soup(rng)]) + unit * n + rng.choice(["", "x", soup(rng)])
    if r < 0.6:
        units = [rng.choice(PIECES) for _ in range(rng.choice([2, 3, 4, 5]))]
        sep = rng.choice(["", " ", "a", "\n"])
        return sep.join(rng.choice(units) for _ in range(n * 2))
    a, b = rng.choice(PAIRS), rng.choice(PAIRS)
    deep = n if len(a[0]) + len(b[0]) < 8 else min(n, 8)
    open_ = "".join((a if rng.random() < 0.6 else b)[0] for _ in range(deep))
    close = "".join((a if rng.random() < 0.6 else b)[1] for _ in range(rng.choice([deep, deep, deep - 1, deep // 2, 0])))
    return open_ + rng.choice(["x", "", "a b"]) + close


def make(rng, index, tier):
    n = rng.choice([1, 1, 1, 1, 2, 3])
    files, jobs = {}, []
    for k in range(n):
        p = project(rng, prefix="" if k == 0 else f"p{k}/", errors=0.1, includes=rng.random() < 0.6)
        for name, text in p["files"].items():
            files.setdefault(name, text)
        main = p["main"]
        job = job_of(rng, p, f"j{k}", visitors=rng.choice([["html"], ["html"], ["base"], ["html", "base"], ["yaml"]]))
        job["vars"] = {"v1": "1", **job["vars"]}
        job.pop("handler", None)
        job.pop("log", None)
        r = rng.random()
        if r < 0.45:
            targets = [f for f in p["files"] if f.endswith(".mau")]
            for f in {main, rng.choice(targets)}:
                new = corrupt(rng, p["files"][f], mutate(rng, p["files"][f]))
                if f != main and rng.random() < 0.25:
                    i = rng.randrange(len(new) + 1)
                    new = new[:i] + rng.choice(["\udcff", "\udcc3", "\udce9t"]) + new[i:]
                if rng.random() < 0.3:
                    job.setdefault("edits", []).append({"how": rng.choice(["inplace", "replace"]), "path": f, "op": rng.choice(["open", "read"]), "n": rng.randrange(4), "data": new})
                else:
                    files[f] = new
        elif r < 0.65:
            files[main] = soup(rng)
            files.setdefault("i1.mau", soup(rng))
        elif r < 0.9:
            files[main] = tower(rng)
            files.setdefault("i1.mau", "text\n")
        else:
            nest(rng, files, main, "" if k == 0 else f"p{k}/")
        r = rng.random()
        if r < 0.3:
            job["acts"] = [{"kind": rng.choice(ASYNC), "ppm": position(rng)}]
        elif r < 0.4:
            op = rng.choice(["open", "read"])
            job["faults"] = [{"op": op, "n": rng.randrange(6), "kind": rng.choice([*FILE_FAULTS[op], *ASYNC])}]
        elif r < 0.5:
            # An error that does not go away: repeating the call is no way out.
            op = rng.choice(["open", "open", "read", "list", "stat"])
            job["faults"] = [{"op": op, "n": rng.choice([0, 1, 1, 2, 3, 4]), "kind": rng.choice(FILE_FAULTS[op]), "sticky": True}]
        jobs.append(job)
    if n > 1 and rng.random() < 0.3:
        # One fails in the middle of something, the others do the same.
        files["bad.bin"] = rng.choice(["\udcff\n", "text\n" * 3 + "\udcc3", "<< mau:r.txt\n\n{nope}\n"])
        files["sub/ok.mau"] = "Ok\n"
        kinds = [*docs.ERRORS, *["undecodable-file", "missing-file"] * 5]
        lines = docs.error_lines(rng.choice(kinds), rng, jobs[0]["file"])
        at = rng.randrange(n)
        for k, j in enumerate(jobs):
            j.pop("edits", None)
            tail = lines if k == at else ["<< mau:sub/ok.mau", "", "<< raw:sub/ok.mau", "", "[footnote=zz]", "----", "x", "----", "", "Text [footnote](zz) {v1}"]
            files[j["file"]] = rng.choice(["Start\n", "= H\n\n* a\n", files[j["file"]]]) + "\n\n" + "\n".join(tail) + "\n"
    files.setdefault("r.txt", "raw\n")
    if n == 1 and rng.random() < 0.12:
        # An interrupt at many different lines of the code in turn.
        jobs[0].pop("acts", None)
        jobs[0].pop("faults", None)
        jobs[0]["visitors"] = ["html"]
        sc = {"files": files, "opts": opts(rng), "jobs": jobs}
        sc["sweep"] = [[rng.choice(["interrupt", "interrupt", "sysexit"]), ["line", rng.randrange(1_000_000), rng.randrange(1_000_000)]] for _ in range(30)]
        return sc
    sc = {"files": files, "opts": opts(rng), "jobs": jobs}
    if n > 1:
        if rng.random() < 0.3:
            # One after the other, not at the same time.
            sc["sequence"] = True
        else:
            sc["schedule"] = schedule(rng, n)
    return sc


def bound(size):
    return 150_000 + 3_000 * size + 15 * size * size


def check(sc, ex):
    try:
        return judge(sc, ex)
    except Stalled as exc:
        # Not a single step in seconds of processor time.
        return [("stalled", {"at": str(exc)})]


def judge(sc, ex):
    base = {"opts": sc["opts"]}
    files, jobs = sc["files"], sc["jobs"]
    n = len(jobs)
    bad = []
    # What a job can read: every file once, and again for each include directive.
    everything = "".join(x for x in files.values() if isinstance(x, str))
    everything += "".join(e["data"] for j in jobs for e in j.get("edits", ()))
    steps, profiles = {}, {}
    for j in jobs:
        alone = {k: v for k, v in j.items() if k not in ("acts", "faults")}
        alone["budget"] = bound(4000)
        # The work is judged by what was really delivered.
        sizes = [len(x.encode("utf-8", "surrogatepass")) for x in files.values() if isinstance(x, str)]
        alone["budget"] = min(bound(sum(sizes) * 3), bound(3000))
        res = ex({**base, "files": files, "phases": [{"jobs": [alone]}], "lines": True})
        got = res["jobs"][j["id"]]
        read = sum(len(h.get("data") or "") for h in res["history"] if h["op"] == "open")
        steps[j["id"]] = res["steps"][j["id"]]
        profiles[j["id"]] = profile(res, j["id"])
        ex.probe("alone_" + got["status"])
        ex.nontrivial(everything, j)
        if got["status"] in ("budget", "deadlock") or steps[j["id"]] > bound(read):
            bad.append(("unbounded", {"status": got["status"], "steps": steps[j["id"]], "bytes read": read, "at": got.get("stage")}))
        else:
            ex.probe("load_%d" % (10 * steps[j["id"]] // bound(read)))
    if bad:
        return bad
    for kind, pos in sc.get("sweep", ()):
        j = jobs[0]
        act = {"kind": kind, "step": step_at(pos, profiles[j["id"]])}
        res = ex({**base, "files": files, "phases": [{"jobs": [{**j, "acts": [act], "budget": 20_000 + 4 * steps[j["id"]]}]}]})
        got = res["jobs"][j["id"]]
        bad += [b for f in res["fired"] if (b := surfaced(f, got, res["steps"][j["id"]], ex))]
        if bad:
            return bad[:1]
    if n == 1 and not jobs[0].get("acts") and not jobs[0].get("faults"):
        return bad
    run = []
    for j in jobs:
        acts = [{"kind": a["kind"], "step": step_at(a["ppm"], profiles[j["id"]])} for a in j.get("acts", ())]
        run.append({**j, "acts": acts, "budget": 20_000 + 4 * max(steps.values())})
    phase = {"jobs": run}
    if "schedule" in sc:
        phase["switches"] = [[t % n, step_at(p, profiles[jobs[t % n]["id"]]), to % n] for t, p, to in sc["schedule"]["switches"]]
        phase["first"] = sc["schedule"]["first"] % n
    res = ex({**base, "files": files, "phases": [{"jobs": [j]} for j in run] if sc.get("sequence") else [phase]})
    for k, j in enumerate(run):
        got = res["jobs"][j["id"]]
        fired = [f for f in res["fired"] if f["job"] == j["id"]]
        ex.probe("run_" + got["status"])
        if got["status"] in ("budget", "deadlock"):
            # Edits that depend on the interleaving change the text: judge only waits.
            if got["status"] == "deadlock" or not any("edits" in x for x in jobs):
                bad.append(("endless", {"status": got["status"], "error": got.get("error"), "fired": res["fired"], "steps": res["steps"], "alone": steps}))
            continue
        for f in fired:
            v = surfaced(f, got, res["steps"][j["id"]], ex)
            if v:
                bad.append(v)
    return bad


def surfaced(f, got, steps, ex):
    """An interrupt stops the run where it arrives, as itself."""
    if f["kind"] not in ("interrupt", "sysexit"):
        return None
    name = {"interrupt": "KeyboardInterrupt", "sysexit": "SystemExit"}[f["kind"]]
    if got["status"] != "error" or got["error"][1] != name:
        return "swallowed", {"fired": f, "status": got["status"], "error": got.get("error")}
    if steps - f["step"] > 3000:
        return "late", {"fired": f, "steps after": steps - f["step"]}
    ex.probe("stopped_" + f["kind"])
    return None
