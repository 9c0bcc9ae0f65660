"""C08: every Mau error is reported exactly once to the handler of its run."""

import json

from props.common import *  # noqa: F403
from props.c01 import schedule

RUNS = {"quick": 900, "thorough": 50000}
RULE = (
    "A scenario is 1-4 compilations (erroneous in the lexer, the parser at any depth of inclusion, or the "
    "visitor; or valid), run as threads with a handler each under drawn interleavings, some with file faults, "
    "interrupts or a failing log sink, some repeated with the same Mau object, or one command line. Reports received by each handler are compared "
    "with the exception of its run. Non-trivial: at least one run fails with a Mau error; counted by distinct "
    "sets of runs and interleavings."
)
CRASHES = ["{{ 'a'.index('b') }}", "{{ 1 / 0 }}", "{{ [].pop() }}", "{{ {}.popitem() }}", "{{ none() }}", "{{ ''.encode(1) }}", "{{ '%d' % 'x' }}", "{{ 'x'.encode('ascii').decode('utf-99') }}"]
KIND = {"lexer": "ERROR_LEXER", "parser": "ERROR_PARSER", "visitor": "ERROR_VISITOR"}


def make(rng, index, tier):
    files, jobs, first = {}, [], None
    cli = rng.random() < 0.2
    n = 1 if cli else rng.choice([1, 2, 2, 3, 4])
    for k in range(n):
        if k and rng.random() < 0.35:
            # The same document again, so that the errors are equal.
            p = dict(first, config=json.loads(json.dumps(first["config"])))
        else:
            p = project(rng, prefix="" if k == 0 else f"p{k}/", errors=0.55, depth=rng.choice([1, 2, 3]), incl=rng.choice([0, 0.3]))
        first = first or p
        for name, text in p["files"].items():
            files.setdefault(name, text)
        r = rng.random()
        if r < 0.3:
            t = p["config"].setdefault("visitor", {}).setdefault("templates", {})
            if r < 0.12:
                t["providers"] = [*t.get("providers", []), "nope"]
            elif r < 0.15:
                # Errors that are not Mau errors.
                t.setdefault("custom", {})[rng.choice(["paragraph.html", "text.html", "header.html", "document.html"])] = rng.choice(CRASHES)
            elif r < 0.22:
                t.setdefault("custom", {})[rng.choice(["paragraph.html", "text.html", "header.note.html", "style.html"])] = "{{ nothing.at.all }}"
            else:
                t.setdefault("custom", {})["paragraph.html"] = "{% if %}"
        if cli:
            argv = cli_argv(rng, p, files, rng.choice(["out.html", "-", None]))
            if rng.random() < 0.4:
                argv.append(rng.choice(["--debug", "--verbose"]))
            jobs.append({"id": "j0", "kind": "cli", "argv": argv})
            continue
        job = job_of(rng, p, f"j{k}", visitors=rng.choice([["html"], ["html"], ["base", "html"], ["yaml", "html"], ["jinja"]]))
        job.pop("handler", None)
        job.pop("log", None)
        if rng.random() < 0.25:
            job["handler"] = "log"
            job["log"] = {"level": rng.choice(["DEBUG", "INFO", "WARNING", "ERROR"]), "args": rng.choice([{}, {"prefix": "P: "}])}
        r = rng.random()
        if r < 0.2:
            op = rng.choice(["open", "read", "list", "stat"])
            job["faults"] = [{"op": op, "n": rng.randrange(8), "kind": rng.choice(FILE_FAULTS[op])}]
        elif r < 0.4:
            job["acts"] = [{"ppm": position(rng), "kind": rng.choice(ASYNC)}]
        elif r < 0.5 and "handler" in job:
            job["faults"] = [{"op": "log", "n": rng.randrange(4), "kind": rng.choice(["enospc", "eio", "epipe"]), "sticky": rng.random() < 0.5}]
        if rng.random() < 0.2:
            # The caller tries again with the same objects.
            job.update(attempts=rng.choice([2, 3]), reuse=rng.choice(["same", "same", "parser", "visitor"]), force=rng.random() < 0.5)
        jobs.append(job)
    return {"files": files, "opts": opts(rng), "jobs": jobs, "schedule": schedule(rng, n) if n > 1 else {"first": 0, "switches": []}}


def check(sc, ex):
    base = {"files": sc["files"], "opts": sc["opts"]}
    n = len(sc["jobs"])
    jobs = [dict(j) for j in sc["jobs"]]
    ref = None
    if n > 1 or any("acts" in j for j in jobs):
        ref = ex({**base, "phases": [{"jobs": [{k: v for k, v in j.items() if k != "acts"} for j in jobs]}], "lines": True})
        for j in jobs:
            if "acts" in j:
                j["acts"] = [{"kind": a["kind"], "step": step_at(a["ppm"], profile(ref, j["id"]))} for a in j["acts"]]
    switches = [
        [t, step_at(p, profile(ref, jobs[t]["id"])), to % n] for t, p, to in sc["schedule"]["switches"] if t < n and n > 1
    ]
    res = ex({**base, "phases": [{"jobs": jobs, "switches": switches, "first": sc["schedule"]["first"] % n}]})
    bad = []
    for j in jobs:
        got = res["jobs"][j["id"]]
        ex.probe(("cli_" if j["kind"] == "cli" else "") + got["status"])
        if got["status"] == "mau-error" or j["kind"] == "cli" and got["exit"] == 1 and not got.get("error"):
            ex.nontrivial(sc["jobs"], sc["files"], res["trace"])
        plain = ref["jobs"][j["id"]] if ref else None
        if plain and len(plain.get("attempts", ())) > 1:
            plain = next((a for a in plain["attempts"] if a["status"] == "mau-error"), plain)
        tries = got.get("attempts") or [got]
        for k, one in enumerate(tries):
            v = judge(j, one, plain, res["fired"])
            if v:
                bad.append((v[0], {**v[1], "job": j["id"], "attempt": k, "status": one["status"], "error": one.get("error")}))
                break
        if len(tries) > 1:
            ex.probe("repeated")
    return bad


def judge(job, got, plain, fired):
    if job["kind"] == "cli":
        lines = [x for x in got["stdout"].split("\n") if x.startswith("[T] ERROR:")]
        reports = [x for x in lines if re_report(x)]
        if got.get("sysexit") and got["exit"] == 1 and len(reports) != 1:
            if not ("-t" not in job["argv"]):
                return ("reports", {"expected": 1, "records": lines[:6]})
        if (got["exit"] == 0 or got.get("error")) and reports:
            return ("reports", {"expected": 0, "records": lines[:6]})
        return None
    if "log" not in got:
        return None
    if job.get("handler") == "log":
        if any(f.get("op") == "log" for f in job.get("faults", ())) or fired:
            # The handlers of `logging` swallow what goes wrong in a write. Lost records are lost, but nothing is reported twice.
            # And what goes wrong after the report takes the place of the reported error.
            most = 1 if got["status"] == "mau-error" or (plain and plain["status"] == "mau-error" and got["status"] == "error") else 0
            count = sum(1 for x in got["log"] if x[1] == "ERROR" and head(x[2]))
            return ("reports", {"expected at most": most, "records": got["log"][:6]}) if count > most else None
        count = sum(1 for x in got["log"] if x[1] == "ERROR" and head(x[2]))
        errors = sum(1 for x in got["log"] if x[1] == "ERROR")
        if got["status"] == "mau-error":
            kind = got["error"][1][0]
            text = got["error"][1][1]
            said = [x[2] for x in got["log"] if x[1] == "ERROR"]
            if count != 1 or not any(text in x for x in said):
                return ("reports", {"expected": [kind, text], "records": got["log"][-6:]})
            return None
        limit = 1 if plain and plain["status"] == "mau-error" and got["status"] == "error" else 0
        if count > limit or (not limit and errors):
            return ("reports", {"expected": limit, "records": got["log"][-6:]})
        return None
    errors = [x for x in got["log"] if x[0] != "debug"]
    if got["status"] == "mau-error":
        message = got["error"][1]
        if len(errors) != 1:
            return ("reports", {"expected": 1, "received": [x[:2] for x in errors]})
        name, received, _ = errors[0]
        if received != message:
            return ("message", {"difference (received != raised)": diff(received, message)})
        if KIND[name] != message[0]:
            return ("message", {"method": name, "type": message[0]})
        if got["log"][-1] is not errors[0] and got["log"][-1] != errors[0]:
            return ("order", {"after the error": got["log"][-1][:1]})
        return None
    # An interrupt can stop a run that has just reported its error.
    limit = 1 if plain and plain["status"] == "mau-error" and got["status"] == "error" else 0
    if len(errors) > limit:
        return ("reports", {"expected": limit, "received": [x[:2] for x in errors]})
    return None


def head(text):
    return text.startswith(("Lexer error", "Parser error")) or text.endswith("Visitor error")


def re_report(line):
    return any(x in line for x in (":Lexer error", ":Parser error", "Visitor error"))
