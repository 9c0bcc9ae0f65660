"""C20: damaged sources are reported as located Mau errors, never as crashes."""

import posixpath
import re

from props.common import *  # noqa: F403
from props.c01 import schedule
from props.c19 import corrupt, soup, tower, bound

RUNS = {"quick": 3000, "thorough": 80000}
RULE = (
    "A scenario is a project in which the main source, included files or both were damaged before or during "
    "the run: truncated, torn between two versions, with flipped, lost, repeated or foreign bytes, or replaced "
    "with soups and repetitions of fragments of the syntax; compiled through the API or the command line, alone "
    "or in threads under drawn interleavings, with read faults. The run must end with a result or a Mau error "
    "(command line: status 1 and the error on standard output), nothing else; the error must lie in a file that was "
    "read, within its lines, and not outside of the files below the damage when only an included file was damaged. "
    "Non-trivial: every damaged text; counted by distinct texts."
)
# Small damage at the places that parse numbers, names and delimiters.
ODD = [
    "* ", "* {e}", "= {e}", "{e}", ". {e}\nx", "@if", "@if {e}", "@if a", "@if v1 ==", "@if v1 != {e}\n\nx", "@ifnot v1==1\n\nx", "<< blockgroup", "<< blockgroup:{e}", "<< raw:", "<< raw:{e}", "<< mau:{e}", "<< raw:a\x00b",
    "<< mau:a\x00b", "<< image:{e}", "<< image", "<< mau:.", "<< raw:..", "<< mau:/", "<< :x", "<< {e}:x", "[start=x]\n# a", "[start=]\n# a", "[start={e}]\n# a", "[start=-1]\n# a", "[start=²]\n# a", "[start=٣]\n# a", "[start=½]\n# a", "[start=1_0]\n# a", "[start=--1]\n# a", "[start= 2 ]\n# a", "[start=1e9]\n# a", "[start=99999999999999999999]\n# a", "[start=auto]\n# a",
    "[*]\nx", "[*nope]\nx", "[*{e}]\nx", "[#]\nx", "[@]\nx", "[@nope]\n----\nx\n----", "[engine=nope]\n----\nx\n----", "[engine=]\n----\nx\n----", "[engine=source, marker_delimiter=\"\"]\n----\na:1:\n----",
    "[engine=source, marker_delimiter=\"::\"]\n----\na::1::\n:\n::\n:::\n----", "[engine=source, highlight_marker=\"\"]\n----\na:@:\nb:x:\n----", "[engine=source, highlight_default_style=\"\"]\n----\na:@:\n----", "[engine=source]\n----\n:\n::\n:::\n:@:\n:@x:\n----",
    "[engine=raw]\n----\n----", "[engine=source]\n----\n----", "----\n----", "[group=g]\n----\nx\n----", "[position=p]\n----\nx\n----", "[group=g, position=p]\n----\nx\n----\n\n[group=g, position=p]\n----\ny\n----\n\n<< blockgroup:g",
    "[footnote=n]\n----\nx\n----\n\n[footnote=n]\n----\ny\n----", "[footnote={e}]\n----\nx\n----", "[footnote](n)", "[footnote]()", "[header](x)", "[header]()", "[header]({e})", "[link]()", "[link]({e})", "[mailto]()", "[image]()", "[image]({e})",
    "[image](a, b, c, d)", "[image](a, b, c, d, e, f)", "[class]()", "[class](a)", "[unicode]()", "[unicode](zz)", "[unicode]({e})", "[unicode](110000)", "[unicode](-1)", "[raw]()", "[if:](a, b)", "[if](a, b)", "[if:v1](a)", "[if:v1==1]()", "[if:{e}](a)", "[if:v1==1:2](a)", "[ifeval:v1==2](v1)",
    "[ifeval:v1==1](nope)", "[ifnot:v1==1](a)", "[nope](a)", "[](a)", "[ ](a)", "[{e}](a)", "[class](a, b=1)", "[class](a=1)", "[class](=)", "[class](,)", "[class](\")", "[class](\"a\"b)", "[=]", "[,]", "[\"]", "[a=]", "[=a]", "[a=b=c]", "[\"a\"=b]", "[a=\"b]", "[a, a=1, a=2]",
    ":x:", ":x:{e}", ":x", ":-", ":-x:", ":+:", ":+x:y", ":-x:{nope}", ": :a", "::a", ":a.:1", ":.a:1", ":.:1", ":a:1\n:a.b:2", ":a.b:1\n:a:2", "{a}", "{v1.x}", "{}", "{ }", "{{v1}}", "\\{", "\\", "`", "`\\`", "$\\$", "%", "\\\\{v1}",
    "[name=a]\n== x\n\n[name=a]\n== y", "[name={e}]\n== x", "[internal_id={e}]\n== x", "== ", "=", "=x", "======= x", "==================== x", "* a\n*** b\n** c", "* a\n# b", "* a\nb", "#* a", "*** a", "** a\n* b",
    ".\nx", ". \nx", ".. x\nx", ".a.b x\nx", ".a {nope}\nx", ".a [header](x)\ny", "[a]", "[a]\n\n[b]\nx", ". t", "@if v1==1", "@if v1==1\n\n@if v1==2\n\nx", "////\nx", "// x", "////", "---", "--- ", "-----", "----\nx", "####\nx\n####", "[x]\n---", "[text={e}]\n<< toc", "<< toc:x=1", "<< footnotes:x",
    "{t1}", "[ifeval:v1==1](t1)", "[ifeval:v1!=1](t1, t1)", "[if:t1==1](a, b)", "@if t1==1\nx", "<< raw:{t1}", "<< mau:{t1}", ":x:{t1}\n\n{x}", "= {t1}", "* {t1}", "[k={t1}]\nx", "[footnote]({t1})", "[class](\"a {t1}\", c)", "[*{t1}]\nx", "<< mau:i1.mau, call:v1={t1}",
    ":a.b:1\n\n[ifeval:v1==1](a)", ":a.b:1\n\n@if a==1\nx", ":a.b:1\n\n{a}", ":a.b:1\n\n[ifeval:a.b==1](a, a.b)", ":a.b.c:1\n:a:1\n:a.b:2", ":a:1\n:a.b.c:2\n:a.b:1", "[ifeval:a==1](a)", "{a.b}", "{a}{a.b}", ":t1.x:1", ":t1.x.z:1", ":v1.x:1",
    "[call:v1=3]\n<< mau:i1.mau", "<< mau:i1.mau, call:=3", "<< mau:i1.mau, call:a.b=3, call:a=1", "<< mau:i1.mau, pass_environment={e}", "<< mau:i1.mau, pass_environment=maybe", "[a]\n<< raw:r.txt, b", "<< mau:uri=i1.mau", "<< mau:x=1", "<< mau:main.mau", "<< mau:./main.mau",
    "[engine=source]\n----\nè:é:\nb:1:\n----", "[engine=source]\n----\na:²:\nb:½:\nc:٣:\n----", "[engine=source]\n----\na:@²:\nb:@é:\nc:@1:\nd:@@:\ne:@+-:\n----", "[engine=source, language=è]\n----\na: :\nb:@ :\n----", "[engine=source, marker_delimiter=|, highlight_marker=&]\n----\na|&|\nb|&&|\nc|1|\nd|\0|\n----",
    "[group=g, position=1x]\n----\nx\n----\n\n[group=g, position=²]\n----\ny\n----\n\n<< blockgroup:g", "[group=g, position=1]\n----\nx\n----\n\n[group=g, position=01]\n----\ny\n----\n\n<< blockgroup:g", "[group=é, position=10]\n----\nx\n----\n\n[group=é, position=b]\n----\ny\n----\n\n<< blockgroup:é",
    "[image](a.png, b, ²)", "[image](a.png, b, 1x, 2%)", "[image](é.png, é, é)", "[link](é, è)", "[link](http://[x)", "[mailto](è)", "[footnote](²)", "[header](²)", "[name=²]\n== x\n\n[header](²)", "[class](x, é, ²)", "[unicode](²)", "[unicode](1F600)", "[unicode](d800)", "[toc](x)", "== ²", "== \0", "== ---", "[#²]\nx", "[#é]\nx", "[*é]\nx", "[.é]\nx",
]  # fmt: skip


WORDS = ["²", "½", "٣", "é", "é1", "1x", "1_0", "-1", "+1", "1e9", "0", "00", "None", "true", "__class__", "{0}", "%s", "%(a)s", "\\0", "\U0001f600", "e\u0301", "\u200b", "\x00", "\x0c", "\u2028", "ß", "İ", "a b", "", "x" * 300, "99999999999999999999"]


def odd(rng):
    parts = [rng.choice(ODD) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    return rng.choice(["", "Par\n\n"]) + rng.choice(["\n\n", "\n\n", "\n", " "]).join(parts) + rng.choice(["", "\n"])


def damage(rng, text):
    r = rng.random()
    if r < 0.12:
        # The document is whole but for a few words nobody expected there.
        words = list(re.finditer(r"\w+", text))
        for m in sorted(rng.sample(words, min(len(words), rng.choice([1, 1, 2, 4]))), key=lambda m: -m.start()):
            text = text[: m.start()] + rng.choice(WORDS) + text[m.end() :]
        return text
    if r < 0.45:
        return corrupt(rng, text, mutate(rng, text))
    if r < 0.6:
        # A torn update inserted something odd.
        lines = text.split("\n")
        lines.insert(rng.randrange(len(lines) + 1), odd(rng))
        return "\n".join(lines)
    if r < 0.8:
        return odd(rng)
    if r < 0.92:
        return soup(rng)
    return tower(rng)


def make(rng, index, tier):
    n = rng.choice([1, 1, 1, 1, 2])
    files, jobs, whole = {}, [], {}
    for k in range(n):
        p = project(rng, prefix="" if k == 0 else f"p{k}/", errors=0.0 if rng.random() < 0.7 else 0.1, includes=rng.random() < 0.7)
        for name, text in p["files"].items():
            files.setdefault(name, text)
        main = p["main"]
        job = job_of(rng, p, f"j{k}", visitors=rng.choice([["html"], ["html"], ["base"], ["html", "base"], ["yaml"]]))
        job["vars"] = {"v1": "1", "e": "", **job["vars"]}
        if rng.random() < 0.4:
            # Values of other types, as they come from YAML files.
            job["vars"]["t1"] = rng.choice([1, 0, -1.5, True, None, [], ["a", "b"], {}, {"x": "1"}, {"x": {"y": 2}}, "a\nb", "*", "`", "{v1}", " ", "\\"])
        job.pop("handler", None)
        job.pop("log", None)
        targets = [f for f in p["files"] if f.endswith(".mau")]
        victims = [rng.choice(targets)] if rng.random() < 0.5 else list(dict.fromkeys([main, rng.choice(targets)]))
        for f in victims:
            new = damage(rng, p["files"][f])
            if rng.random() < 0.25:
                job.setdefault("edits", []).append({"how": rng.choice(["inplace", "replace"]), "path": f, "op": rng.choice(["open", "read"]), "n": rng.randrange(4), "data": new})
            else:
                files[f] = new
        if k == 0 and main not in victims and "edits" not in job:
            whole.update((f, p["files"][f]) for f in victims)
        if rng.random() < 0.15:
            op = rng.choice(["open", "read"])
            job["faults"] = [{"op": op, "n": rng.randrange(6), "kind": rng.choice(FILE_FAULTS[op])}]
        if k == 0 and rng.random() < 0.12 and "edits" not in job:
            files[main] = "".join(f":{v}:{x}\n" for v, x in p["vars"].items() if x) + "\n" + files[main]
            argv = cli_argv(rng, p, files, out=rng.choice(["out.html", "-"]), fmt="html")
            job = {"id": f"j{k}", "kind": "cli", "argv": argv, **({"faults": job["faults"]} if "faults" in job else {})}
        jobs.append(job)
    files.setdefault("i1.mau", "text\n")
    files.setdefault("r.txt", "raw\n")
    sc = {"files": files, "opts": opts(rng), "jobs": jobs, "whole": whole}
    if jobs[0]["kind"] == "cli":
        del jobs[1:]
    if len(jobs) > 1:
        sc["schedule"] = schedule(rng, n)
    return sc


def lines_of(text):
    return len(text.splitlines()) + 1


def check(sc, ex):
    files, jobs = sc["files"], sc["jobs"]
    n = len(jobs)
    run = [{**j, "budget": bound(6000)} for j in jobs]
    phase = {"jobs": run}
    if "schedule" in sc and n > 1:
        calm = [{"jobs": [{k: v for k, v in j.items() if k not in ("faults", "edits")}]} for j in run]
        ref = ex({"files": files, "opts": sc["opts"], "phases": calm, "lines": True})
        phase["switches"] = [[t % n, step_at(p, profile(ref, run[t % n]["id"])), to % n] for t, p, to in sc["schedule"]["switches"]]
        phase["first"] = sc["schedule"]["first"] % n
    res = ex({"files": files, "opts": sc["opts"], "phases": [phase]})
    bad = []
    for k, j in enumerate(run):
        got = res["jobs"][j["id"]]
        fired = [f for f in res["fired"] if f["job"] == j["id"]]
        mine = [h for h in res["history"] if h.get("t") == j["id"] and h["op"] == "open"]
        read = {}
        for h in mine:
            read.setdefault(posixpath.normpath(h["path"]), []).append(h.get("data") or "")
        ex.nontrivial(files, j)
        status = got["status"]
        ex.probe("%s_%s" % (j["kind"], status))
        if status in ("ok", "budget"):
            # Work is the business of C19.
            continue
        if j["kind"] == "cli":
            if status == "exit":
                if got.get("error"):
                    status = "error"
                else:
                    ex.probe("exit_%s" % got["exit"])
                    if got["exit"] == 1:
                        if "error: " not in (got.get("stdout") or ""):
                            bad.append(("cli-silent", {"stdout": got.get("stdout")}))
                    elif got["exit"] not in (0, None):
                        bad.append(("cli-exit", {"exit": got["exit"]}))
                    continue
            if status == "error" and (allowed(got["error"]) or main_fault(got["error"], fired, mine, sc)):
                continue
            bad.append(("crash-" + str((got.get("error") or ["", status])[1]), {"status": status, "error": got.get("error"), "stage": got.get("at"), "fired": fired}))
            continue
        if status != "mau-error":
            if status == "error" and (allowed(got["error"]) or main_fault(got["error"], fired, mine, sc)):
                ex.probe("allowed_" + got["error"][1])
                continue
            bad.append(("crash-" + str((got.get("error") or ["", status])[1]), {"status": status, "error": got.get("error"), "stage": got.get("at"), "fired": fired}))
            continue
        if len(got["log"]) != 1 and got["at"] != "start":
            bad.append(("report", {"error": got["error"], "log": got["log"]}))
        where = got.get("where")
        if not where:
            bad.append(("no-location", {"error": got["error"]}))
            continue
        source, line = where
        visitor = got["at"] == "visitor"
        texts = read.get(posixpath.normpath(source)) if source else None
        if not texts:
            bad.append(("alien-source", {"where": where, "error": got["error"], "read": sorted(read)}))
        elif not any(0 <= line - (1 if visitor else 0) < lines_of(t) for t in texts):
            bad.append(("alien-line", {"where": where, "error": got["error"], "lines": [lines_of(t) for t in texts], "stage": got["at"]}))
        else:
            ex.probe("located_" + got["at"])
            if k == 0 and n == 1 and sc["whole"] and not fired and source == j["file"]:
                # Only included files were damaged: the main source is not to blame.
                ref = ex({"files": {**files, **sc["whole"]}, "opts": sc["opts"], "phases": [phase]})["jobs"][j["id"]]
                if ref["status"] == "ok":
                    bad.append(("misplaced", {"where": where, "error": got["error"], "damaged": sorted(sc["whole"])}))
            elif sc["whole"]:
                ex.probe("blamed_damage")
    return bad


def allowed(error):
    """Exceptions that are not about the text."""
    return error[1] in ("RecursionError",)


def clean(text):
    """Whether the text was delivered as valid UTF-8."""
    return not any("\udc80" <= c <= "\udcff" for c in text)


def main_fault(error, fired, opens, sc):
    """The caller reads the main source, not Mau."""
    if error[1] == "UnicodeDecodeError":
        # An edit in the middle of a character of the main source.
        mains = {j.get("file", "main.mau") for j in sc["jobs"]}
        return any(not clean(h.get("data") or "") for h in opens if h["path"] in mains)
    return bool(fired) and error[1] in OS_ERRORS


OS_ERRORS = {"OSError", "FileNotFoundError", "PermissionError", "IsADirectoryError", "NotADirectoryError", "TimeoutError", "InterruptedError", "BlockingIOError"}

