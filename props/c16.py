"""C16: diagnostics never change the result."""

import json
import re

from props.common import *  # noqa: F403
from props.c01 import schedule

RUNS = {"quick": 700, "thorough": 40000}
RULE = (
    "A scenario is a project with debugging tags on 1-4 drawn elements (boxed, in macros, on include "
    "directives, in included files). It is run without the tags, with another internal tag of the same length "
    "in their place, and with the tags under drawn handlers: a recording one, loggers of every level and "
    "option whose sink is slow, fails once or always, alone or concurrently with others, with and without a "
    "file fault; or as the command line with and without --verbose, --debug or --lexer-print-output. Outcomes "
    "are compared, debug messages are counted against the visits seen by a visitor plugin. Non-trivial: at "
    "least one debug message was due; counted by distinct scenario."
)
TAG, OTHER = "#mau:debug", "#mau:quiet"
START = re.compile(r"(Par |=+ |<< (toc|footnotes|custom)$|[*#]+ )")
BOX = re.compile(r"\[[^\]]*\]$")
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]


def tag(rng, files):
    spots = []
    for name in sorted(files):
        if not name.endswith(".mau") or files[name] is None:
            continue
        lines = files[name].split("\n")
        for i, line in enumerate(lines):
            before = lines[i - 1] if i else ""
            if BOX.match(line) and ")" not in line:
                spots.append((name, i, "box"))
            elif before == "" and START.match(line) and not "".join(lines[max(0, i - 2) : i]).startswith(("[", ".", "@")):
                spots.append((name, i, "line"))
            elif line.startswith("<< mau:"):
                spots.append((name, i, "include"))
            elif "[gen](a, b=c)" in line:
                spots.append((name, i, "macro"))
    if not spots:
        return
    chosen = sorted(rng.sample(spots, min(len(spots), rng.choice([1, 2, 2, 3, 4]))), reverse=True)
    for name, i, how in chosen:
        lines = files[name].split("\n")
        if how == "box":
            lines[i] = f"[{TAG}, " + lines[i][1:] if lines[i] != "[]" else f"[{TAG}]"
        elif how == "line":
            lines.insert(i, f"[{TAG}]")
        elif how == "include":
            head, sep, tail = lines[i].partition(",")
            lines[i] = f"{head}, {TAG}{sep}{tail}"
        else:
            lines[i] = lines[i].replace("[gen](a, b=c)", f"[gen](a, {TAG}, b=c)")
        files[name] = "\n".join(lines)


def stripped(files):
    out = {}
    for name, text in files.items():
        if isinstance(text, str) and name.endswith(".mau"):
            text = "\n".join("" if x == f"[{TAG}]" else x for x in text.split("\n"))
            text = text.replace(f"[{TAG}, ", "[").replace(f", {TAG}", "")
        out[name] = text
    return out


def other(files):
    return {k: v.replace(TAG, OTHER) if isinstance(v, str) else v for k, v in files.items()}


def sink(rng):
    log = {"level": rng.choice(LEVELS), "args": rng.choice([{}, {"prefix": "P: "}, {"prefix": rng.choice(["{} ", "{k} {", "%s %d ", "100% "])}, {"debug_logging_level": rng.choice([5, 10, 20, 30])}])}
    faults = []
    r = rng.random()
    if r < 0.3:
        faults.append({"op": "log", "n": rng.randrange(6), "kind": rng.choice(["enospc", "eio", "epipe", "slow"])})
    elif r < 0.5:
        faults.append({"op": "log", "n": 0, "kind": rng.choice(["enospc", "eio", "slow"]), "sticky": True})
    return {"log": log, "faults": faults}


def make(rng, index, tier):
    proj = project(rng, errors=0.2, incl=rng.choice([0, 0, 0.3]), debug=0)
    files = proj["files"]
    if rng.random() < 0.12:
        proj["config"].setdefault("visitor", {}).setdefault("templates", {}).setdefault("custom", {})["paragraph.html"] = "{{ nothing.at.all }}"
    sc = {"opts": opts(rng), "clean": proj["error"] is None}
    if rng.random() < 0.25:
        argv = cli_argv(rng, proj, files, rng.choice(["out.x", "out.x", None]))
        extra = rng.choice([["--verbose"], ["--debug"], ["--debug"], ["--lexer-print-output"], ["--debug", "--lexer-print-output"]])
        job = {"id": "j", "kind": "cli", "argv": argv}
        if "--lexer-print-output" not in extra:
            job["stdout_encoding"] = rng.choice(["utf-8", "utf-8", "ascii", "latin-1"])
            if rng.random() < 0.5:
                sc["faults"] = [{"op": "stdout", "n": rng.randrange(5), "kind": rng.choice(["eio", "enospc", "epipe", "slow"])}]
        sc["extra"] = extra
        tag(rng, files)
    else:
        tag(rng, files)
        job = job_of(rng, proj, "j")
        job.pop("handler", None)
        job.pop("log", None)
        job["visitors"] = [v if v == "jinja" or rng.random() < 0.15 else "count:" + v for v in job["visitors"]]
        if rng.random() < 0.2:
            op = rng.choice(["open", "read", "list"])
            job["faults"] = [{"op": op, "n": rng.randrange(8), "kind": rng.choice(FILE_FAULTS[op])}]
        if rng.random() < 0.4:
            sc["root_level"] = rng.choice(LEVELS[:2] + LEVELS)
        sc["sinks"] = [sink(rng) for _ in range(rng.choice([1, 2, 3]))]
        if len(sc["sinks"]) > 1 and rng.random() < 0.4:
            sc["schedule"] = schedule(rng, len(sc["sinks"]))
    sc["files"], sc["job"] = files, job
    return sc


SKIP = ("log",)


def same(got, want):
    """The first difference of two outcomes, apart from the name of the tag."""
    a, b = outcome(got, SKIP), json.loads(json.dumps(outcome(want, SKIP)).replace("quiet", "debug"))
    return diff(a, b)


def check(sc, ex):
    if sc["job"]["kind"] == "cli":
        return check_cli(sc, ex)
    base = {"opts": sc["opts"]}
    bad = []
    job = sc["job"]
    calm = ex({**base, "files": other(sc["files"]), "phases": [{"jobs": [job]}]})
    ref = calm["jobs"]["j"]
    tagged = ex({**base, "files": sc["files"], "phases": [{"jobs": [job]}], "lines": "schedule" in sc})
    got = tagged["jobs"]["j"]
    ex.probe("ref_" + ref["status"])
    d = same(got, ref)
    if d:
        bad.append(("tags", {"what": "other outcome with debugging tags", "difference (tagged != not)": d}))
    # Messages to the handler.
    debug = [[x[1], x[2]] for x in got["log"] if x[0] == "debug"]
    ex.probe("debug_messages", len(debug))
    if debug:
        ex.nontrivial(sc["job"], sc["files"])
    if [x for x in ref["log"] if x[0] == "debug"]:
        bad.append(("spurious", {"what": "debug messages without the tag"}))
    d = diff([x for x in got["log"] if x[0] != "debug"], json.loads(json.dumps(ref["log"]).replace("quiet", "debug")))
    if d:
        bad.append(("messages", {"what": "other messages with debugging tags", "difference (tagged != not)": d}))
    if all(v.startswith("count:") for v in job["visitors"]):
        due = sorted(json.dumps([v[0], v[1][0]]) for v in got["visits"])
        sent = sorted(json.dumps([next((x[1] for x in m if x[0] == "node_type"), None), w and w[0]]) for m, w in debug)
        if got["status"] == "ok":
            ex.probe("visits", len(due))
            if due != sent:
                bad.append(("count", {"what": "debug messages != visits of tagged nodes", "messages": sent[:8], "visits": due[:8]}))
        else:
            left = list(due)
            for s in sent:
                if s not in left:
                    bad.append(("count", {"what": "a debug message without a visit of a tagged node", "message": s}))
                    break
                left.remove(s)
    # The tags leave no trace in what is rendered.
    if sc["clean"] and not job.get("faults") and all(v.split(":")[-1] in ("html", "tex") for v in job["visitors"]):
        plain = ex({**base, "files": stripped(sc["files"]), "phases": [{"jobs": [job]}]})["jobs"]["j"]
        if plain["status"] != got["status"] or plain["status"] == "ok" and plain["out"] != got["out"]:
            bad.append(("trace", {"what": "other output with debugging tags", "difference (tagged != none)": diff(outcome(got, SKIP), outcome(plain, SKIP))}))
    # Loggers.
    jobs = []
    for k, s in enumerate(sc["sinks"]):
        jobs.append({**job, "id": f"l{k}", "handler": "log", "log": s["log"], "faults": [*job.get("faults", []), *s["faults"]]})
    if "schedule" in sc:
        n = len(jobs)
        steps = profile(tagged, "j")
        switches = [[t % n, step_at(p, steps), to % n] for t, p, to in sc["schedule"]["switches"]]
        phases = [{"jobs": jobs, "switches": switches, "first": sc["schedule"]["first"] % n}]
    else:
        phases = [{"jobs": [j]} for j in jobs]
    loud = {"opts": {**sc["opts"], "root_level": sc["root_level"]}} if "root_level" in sc else base
    res = ex({**loud, "files": sc["files"], "phases": phases})
    for f in res["fired"]:
        ex.probe("fired_" + f["kind"])
    for j, s in zip(jobs, sc["sinks"]):
        out = res["jobs"][j["id"]]
        d = same(out, ref)
        if d:
            bad.append(("logging", {"what": "other outcome with this logger", "log": s, "difference (logged != not)": d}))
        errors = [x for x in out["log"] if x[1] in ("ERROR", "CRITICAL")]
        if errors and out["status"] == "ok":
            bad.append(("as-error", {"what": "a successful run logged an error", "record": errors[0]}))
        if out["status"] != "mau-error" and [x for x in got["log"] if x[0] != "debug"] and not errors and not s["faults"]:
            bad.append(("lost", {"what": "an error is not in the log", "log": s}))
    return bad


def check_cli(sc, ex):
    base = {"opts": sc["opts"], "snapshot": True}
    job = sc["job"]
    calm = ex({**base, "files": other(sc["files"]), "phases": [{"jobs": [job]}]})
    loud = {**job, "argv": [*job["argv"], *sc["extra"]], "faults": sc.get("faults", [])}
    res = ex({**base, "files": sc["files"], "phases": [{"jobs": [loud]}]})
    want, got = calm["jobs"]["j"], res["jobs"]["j"]
    ex.probe(f"cli_{want['exit']}")
    for f in res["fired"]:
        ex.probe("fired_stdout_" + f["kind"])
    if len(got["stdout"]) > len(want["stdout"]) or res["fired"]:
        ex.nontrivial(sc["job"], sc["files"], sc["extra"])
    bad = []
    if want["exit"] != got["exit"]:
        bad.append(("cli", {"what": "other exit status", "extra": sc["extra"], "got": got["exit"], "want": want["exit"], "error": got.get("error"), "stderr": got["stderr"][-600:]}))
    a = {k: v for k, v in res["files"].items() if k not in sc["files"]}
    b = json.loads(json.dumps({k: v for k, v in calm["files"].items() if k not in sc["files"]}).replace("quiet", "debug"))
    d = diff(a, b)
    if d:
        bad.append(("cli", {"what": "other files", "extra": sc["extra"], "difference (with diagnostics != without)": d}))
    if got["exit"] == 0 and "ERROR:" in got["stdout"]:
        bad.append(("as-error", {"what": "a successful run logged an error", "stdout": got["stdout"][-800:]}))
    return bad
