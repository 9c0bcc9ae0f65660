"""C15: objects that belong to the caller or to plugins are never modified."""

from props.common import *  # noqa: F403

RUNS = {"quick": 560, "thorough": 80000}
RULE = (
    "A scenario is a history of 1-4 groups of compilations in one process, many of which share one "
    "configuration mapping (aliases, highlight styles, providers, paths, prefixes, nested custom templates), "
    "some concurrent, erroneous, hit by faults or interrupted. The configuration, its values, the variables, "
    "the tables of the providers and visitor classes and Mau's default tables are compared with their initial "
    "state at drawn steps inside the runs, and at the end. Non-trivial: a run with a configuration, compared "
    "at a step inside it or after a stop; counted by distinct scenario."
)
PROVIDERS = {
    "alpha": {"paragraph.html": "<A>{{ content }}", "header": {"html": "<AH>{{ content }}", "note": {"html": "<AN>{{ content }}"}}},
    "beta": {"paragraph": {"note.html": "<B>{{ content }}", "quote": {"tg_t1": {"html": "<BQ>{{ content }}"}}}, "block.html": "<BB>{{ content }}"},
    "gamma": {"block": {"html": "<G>{{ content }}"}, "text.pt_header.html": "[{{ value }}]"},
}


def rich(rng, cfg):
    """More of what a caller can keep in a configuration."""
    parser = cfg.setdefault("parser", {})
    if rng.random() < 0.7:
        parser["aliases"] = {
            "source": {"args": {"engine": "source"}, "names": ["language"]},
            "warn": {"subtype": "note", "args": {"k1": "v1", "k2": "v2"}, "names": ["who", "what"]},
            "mini": rng.choice([{"subtype": "quote"}, {"subtype": "quote", "args": {}, "names": []}, {"subtype": "quote", "names": ["one", "one"]}, {}]),
            "src": {"args": {"engine": "source", "zz": "1"}, "names": ["language"]},
        }
    if rng.random() < 0.5:
        cfg["extra"] = {"empty": {}, "list": ["a", "b"], "nest": {"x": {}, "y": {"z": [{"q": "r"}]}}, "one": "1"}
    if rng.random() < 0.4:
        parser["source_highlight_style_aliases"] = rng.choice([{"+": "plus", "hot": "warm"}, {"+": "plus", "hot": "warm"}, {}, {"+": "-", "-": "+"}])
    t = cfg.setdefault("visitor", {}).setdefault("templates", {})
    if rng.random() < 0.6:
        t["providers"] = rng.sample(["alpha", "beta", "gamma"], rng.choice([2, 3]))
        if rng.random() < 0.2:
            t["providers"].insert(rng.randrange(3), rng.choice(t["providers"]))
    if rng.random() < 0.6:
        t["custom"] = {"paragraph": {"note": {"html": "<C>{{ content }}"}}, "header.html": "<CH>{{ content }}", "block": {"tg_t1": {"html": "<CT>{{ content }}"}}}
    if rng.random() < 0.5:
        t["prefixes"] = rng.choice([["book", "blog"], ["book", "blog"], ["blog", "book", "blog"], ["book", None], [None], ["", "book"], []])
    if not t:
        del cfg["visitor"]
    return cfg


def make(rng, index, tier):
    projects, files, configs = [], {}, {}
    for k in range(rng.choice([1, 2, 2, 3])):
        p = project(rng, prefix="" if k == 0 else f"p{k}/", errors=0.25)
        for name, text in p["files"].items():
            files.setdefault(name, text)
        if rng.random() < 0.6:
            cfg = rich(rng, dict(p["config"]))
            main = p["main"]
            aliases = cfg["parser"].get("aliases", {})
            extra = []
            for a in rng.sample(sorted(aliases), min(len(aliases), rng.choice([1, 2]))):
                if a in ("source", "src"):
                    extra.append(f"[@{a}, py, #t1, k9=1]\n----\ncode:@+:\nmore:1:\nhot:@hot:\n----\n")
                else:
                    extra.append(f"[@{a}, one, two, #t1, k1=mine]\nAliased *par*\n")
            if "extra" in cfg:
                # The document defines variables below and above the caller's.
                names = ["mau.extra.empty.k", "mau.extra.nest.x.y", "mau.extra.nest.y.n", "mau.extra.one.two", "mau.extra.list.k", "mau.extra.nest", "mau.extra"]
                extra.append("\n".join(f":{v}:new" for v in rng.sample(names, rng.choice([1, 2, 4]))))
            extra.append("[*quote, #t1]\nQuoted\n\n[*note]\n= Noted\n")
            files[main] = files[main].rstrip("\n") + "\n\n" + "\n\n".join(extra)
            p["config"] = cfg
        configs[f"c{k}"] = p["config"]
        projects.append((f"c{k}", p))
    sc = {"files": files, "opts": opts(rng), "configs": configs, "groups": []}
    if rng.random() < 0.7:
        sc["providers"] = PROVIDERS
    n = 0
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        jobs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            name, p = rng.choice(projects)
            if rng.random() < 0.25:
                name = "c0"
            n += 1
            job = job_of(rng, p, f"j{n}")
            job["config_ref"] = name
            job["marks"] = [{"ppm": position(rng), "kind": "check_owned"} for _ in range(rng.choice([2, 6, 12]))]
            k = rng.random()
            if k < 0.25:
                job["marks"].append({"ppm": position(rng), "kind": rng.choice(ASYNC)})
            elif k < 0.4:
                op = rng.choice(["open", "read", "list", "stat"])
                job["faults"] = [{"op": op, "n": rng.randrange(8), "kind": rng.choice(FILE_FAULTS[op] + ASYNC)}]
            jobs.append(job)
        sw = [[rng.randrange(len(jobs)), position(rng), rng.randrange(len(jobs))] for _ in range(rng.choice([0, 2, 6]))] if len(jobs) > 1 else []
        sc["groups"].append({"jobs": jobs, "ppm": sw})
    return sc


def check(sc, ex):
    spec = {k: sc[k] for k in ("files", "opts", "configs", "providers") if k in sc}
    spec["own_defaults"] = True
    # How long the runs take, and whether they are clean without a stop.
    plain = [{"jobs": [{k: v for k, v in j.items() if k not in ("marks", "faults")} for j in g["jobs"]]} for g in sc["groups"]]
    calm = ex({**spec, "phases": plain, "lines": True})
    bad = []
    if calm["owned_bad"]:
        bad.append(("modified", {"objects": calm["owned_bad"][0][2], "when": "no faults"}))
    phases = []
    for g in sc["groups"]:
        jobs = []
        for j in g["jobs"]:
            acts = [{"kind": m["kind"], "step": step_at(m["ppm"], profile(calm, j["id"]))} for m in j["marks"]]
            jobs.append({**{k: v for k, v in j.items() if k != "marks"}, "acts": acts})
        sw = [[a % len(jobs), step_at(p, profile(calm, jobs[a % len(jobs)]["id"])), b % len(jobs)] for a, p, b in g["ppm"]]
        phases.append({"jobs": jobs, "switches": sw})
    res = ex({**spec, "phases": phases})
    ex.nontrivial(sc)
    for f in res["fired"]:
        ex.probe("fired_" + f["kind"])
    for j in res["jobs"].values():
        ex.probe("status_" + str(j.get("status")))
    if res["owned_bad"]:
        tid, step, objects = res["owned_bad"][0]
        bad.append(("modified", {"objects": objects, "task": tid, "step": step, "fired": res["fired"]}))
    return bad
