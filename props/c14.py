"""C14: variables of an included file never leak, at any point of the run."""

from props.modelcheck import *  # noqa: F403
from props import modelcheck

RUNS = {"quick": 2400, "thorough": 120000}
RULE = (
    "A scenario is a model project (definitions, redefinitions, name spaces, call arguments, "
    "pass_environment, blocks) with the outcome of each reference visible in the text, run to the end, then "
    "stopped by an interrupt or fault at drawn steps and operations. The caller's Environment must hold one "
    "of the states the model allows for the number of files read so far; everything else the caller owns must "
    "be untouched. A part comes after other runs in the process. Non-trivial: the project has an inclusion and a definition; counted by distinct (project, "
    "stop point)."
)


def make(rng, index, tier):
    clash = rng.choice([0, 0.5])
    # Namespaces and variables of the same name: the variables inside are used.
    within = clash and rng.random() < 0.6
    proj = model.make(
        rng, files=rng.choice([1, 2, 3, 4]), loops=0.04, aliases=0.05, conds=0.15, pe=rng.choice([0, 0.3, 0.6]),
        labels=0.1, clash=clash, missing=rng.choice([0, 0, 0.08]), size=rng.choice([3, 4, 6]),
        site="S" if rng.random() < 0.4 else None, bare=0.25 if within else rng.choice([0, 0, 0.04]),
    )  # fmt: skip
    if within:
        proj["vars"].update({"ns.v3": "b2", "v2": "k"})
    elif rng.random() < 0.3:
        proj["vars"]["ns.v3"] = "b2"
    sc = {"proj": proj, "opts": opts(rng), "stops": [], "base_env": rng.random() < 0.5, "past": past(rng, proj, 0.2)}
    for _ in range(rng.choice([2, 3, 5])):
        if rng.random() < 0.6:
            sc["stops"].append({"act": rng.choice(ASYNC), "ppm": position(rng)})
        else:
            op = rng.choice(["open", "read"])
            sc["stops"].append({"op": op, "n": rng.randrange(10), "kind": rng.choice(FILE_FAULTS[op] + ASYNC)})
    return sc


def check(sc, ex):
    proj = sc["proj"]
    job = job_for(proj, config={"site": "S", "deep": {"list": ["x"]}}, base_env=sc["base_env"])
    spec = {"files": model.files_of(proj), "opts": sc["opts"], "budget": 8_000_000, "check_owned": True}
    spec.update(after(sc.get("past"), spec["files"], {"jobs": [job]}, ex, spec, proj))
    before = spec.pop("phases")[:-1]
    res = ex({**spec, "phases": [*before, {"jobs": [job]}], "lines": True})
    bad = []
    if res["owned_bad"]:
        bad.append(("caller", {"changed": res["owned_bad"][0]}))
    got = res["jobs"]["m"]
    try:
        full, _ = modelcheck.follow(proj, res, "m", ex)
    except (model.Unknown, model.TooBig):
        return bad
    except Mismatch as exc:
        return [*bad, (exc.cls, {**exc.detail, "status": got["status"], "error": got.get("error")})]
    probes(full, ex)
    v = verdict(full, got, parts=("doc", "env"))
    if v:
        return [*bad, v]
    states, marks = full.model.states, full.model.marks
    for stop in sc["stops"]:
        j = dict(job)
        if "act" in stop:
            j["acts"] = [{"kind": stop["act"], "step": step_at(stop["ppm"], profile(res, "m"))}]
        else:
            j["faults"] = [stop]
        r = ex({**spec, "phases": [*before, {"jobs": [j]}]})
        got = r["jobs"]["m"]
        fired = fired_now(r, [j])
        if full.model.opens and len(states) > 1:
            ex.nontrivial(proj, stop, fired)
        if r["owned_bad"]:
            bad.append(("caller", {"changed": r["owned_bad"][0], "stop": stop}))
        if "env" not in got:
            ex.probe("stopped_before")
            continue
        n = len(modelcheck.reads_of(r, "m", proj["main"]))
        env = env_of(got)
        # The state may still be the one before the next definition.
        allowed = [s for k, s in enumerate(states) if marks[k] <= n and (k + 1 == len(states) or marks[k + 1] >= n)]
        if got["status"] == "ok":
            allowed = [states[-1]] if not fired else allowed
        ex.probe("stopped_" + got["status"])
        # While the caller sets the environment up it may be incomplete.
        if n == 0 and got.get("at") in ("start", "lexer"):
            allowed = [states[0], {}]
        if env not in allowed:
            bad.append(("variables", {"stop": stop, "fired": fired, "environment": env, "allowed": allowed[:4]}))
    return bad
