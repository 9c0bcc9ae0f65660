#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Exit 0: the property held in every simulated run.
Exit 1: "VIOLATION property=<id> replay=<path>".
Exit 3: the machinery failed (never a verdict).
"""

import argparse
import importlib
import json
import os
import select
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("MAUSIM_PYTHON", "/opt/venv/bin/python")
sys.path.insert(0, HERE)

from sim.ex import Stats  # noqa: E402
from sim.rng import digest  # noqa: E402

HASHSEEDS = (0, 1, 12345, 4242424242)


class Worker:
    def __init__(self, klass):
        self.klass = klass
        env = dict(os.environ, PYTHONHASHSEED=str(HASHSEEDS[klass]), PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen(
            [PYTHON, "-u", os.path.join(HERE, "sim", "worker.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE,
        )  # fmt: skip
        self.job = None
        self.buffer = b""

    def ask(self, request):
        self.job = request
        self.p.stdin.write((json.dumps(request) + "\n").encode())
        self.p.stdin.flush()

    def read(self):
        """One answer, None if it is not complete yet."""
        data = os.read(self.p.stdout.fileno(), 1 << 20)
        if not data:
            job, self.job = self.job, None
            return {"index": job and job.get("index"), "harness": "worker died", "dead": True}
        self.buffer += data
        if b"\n" not in self.buffer:
            return None
        line, self.buffer = self.buffer.split(b"\n", 1)
        self.job = None
        return json.loads(line)

    def call(self, request):
        self.ask(request)
        while True:
            answer = self.read()
            if answer is not None:
                return answer

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:  # noqa: BLE001
            self.p.kill()


def known_findings(prop):
    """[(class, fragment of the detail, line)]"""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                if line.startswith("known: "):
                    entry = json.loads(line[len("known: ") :])
                    if entry["property"] == prop:
                        out.append(entry)
    return out


def is_known(found, cls, detail):
    for entry in found:
        if entry["class"] == cls and entry["match"] in json.dumps(detail):
            return entry
    return None


def explore(prop, mod, tier, seed, n, cap, jobs, first=0):
    """Check scenarios first..first+n; yields (answers, violations, errors)."""
    queues = {k: [i for i in range(first, first + n) if i % len(HASHSEEDS) == k] for k in range(len(HASHSEEDS))}
    for q in queues.values():
        q.reverse()
    workers = [Worker(k % len(HASHSEEDS)) for k in range(jobs)]
    answers, errors, retried = {}, [], set()
    started = time.monotonic()
    stop = False
    samples = {first, first + 1, first + 2}

    def feed(w):
        if stop or time.monotonic() - started > cap:
            return False
        q = queues[w.klass]
        if not q:
            if jobs >= len(HASHSEEDS):
                return False
            # Fewer workers than hash seeds: become another class.
            for k, other in queues.items():
                if other:
                    w.stop()
                    w.__init__(k)
                    q = other
                    break
            else:
                return False
        i = q.pop()
        w.ask({"property": prop, "index": i, "tier": tier, "seed": seed, "sample": i in samples})
        return True

    busy = {}
    for w in workers:
        if feed(w):
            busy[w.p.stdout.fileno()] = w
    hard = cap + 400
    while busy:
        ready, _, _ = select.select(list(busy), [], [], 5)
        if time.monotonic() - started > hard:
            errors.append("a worker did not answer in time")
            for w in workers:
                w.p.kill()
            break
        for fd in ready:
            w = busy[fd]
            job = w.job
            answer = w.read()
            if answer is None:
                continue
            # A worker that is started again has another file descriptor.
            del busy[fd]
            if answer.get("dead"):
                w.p.wait()
                w.__init__(w.klass)
            if answer.get("harness"):
                i = answer["index"]
                if i not in retried:
                    # Once more, in case the machine was the cause.
                    retried.add(i)
                    w.ask(job)
                    busy[w.p.stdout.fileno()] = w
                    continue
                errors.append(f"scenario {i}: {answer['harness']}")
            else:
                answers[answer["index"]] = answer
                if answer["violations"]:
                    known = known_findings(prop)
                    if any(not is_known(known, c, d) for c, d in answer["violations"]):
                        stop = True
            if len(errors) > 5:
                stop = True
            if feed(w):
                busy[w.p.stdout.fileno()] = w
    for w in workers:
        w.stop()
    return answers, errors, time.monotonic() - started


def write_replay(prop, seed, index, cls, detail, scenario, trail, hashseed):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    data = {
        "property": prop, "class": cls, "detail": detail, "seed": seed, "index": index,
        "hashseed": hashseed, "scenario": scenario, "executions": trail,
    }  # fmt: skip
    path = os.path.join(HERE, "replays", f"{prop}-{digest([scenario, cls])[:12]}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return path


def replay(prop, path):
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    w = Worker(HASHSEEDS.index(data["hashseed"]))
    answer = w.call({"property": data["property"], "scenario": data["scenario"]})
    w.stop()
    return data, answer


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MAUSIM_JOBS", "0")) or min(8, os.cpu_count() or 8))
    ap.add_argument("--digests", help="write a digest of every scenario's answer (self-test)")
    args = ap.parse_args()
    prop = args.property
    if args.replay:
        data, answer = replay(prop, args.replay)
        if answer.get("harness"):
            print(answer["harness"], file=sys.stderr)
            return 3
        for c, d in answer["violations"]:
            print(json.dumps({"class": c, "detail": d}, ensure_ascii=False)[:4000])
        if any(c == data["class"] for c, _ in answer["violations"]):
            same = answer["trail"] == data["executions"]
            print(f"replay: the executions are {'identical' if same else 'NOT identical'} to the recorded ones")
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print("the violation did not occur")
        return 0

    mod = importlib.import_module("props." + prop.lower())
    n = args.runs or mod.RUNS[args.tier]
    cap = args.cap or {"quick": 240, "thorough": 3000}[args.tier]
    print(f"{prop}: seed {args.seed}, tier {args.tier}, {n} scenarios, {args.jobs} workers", flush=True)
    answers, errors, wall = explore(prop, mod, args.tier, args.seed, n, cap, args.jobs, args.first)

    stats = Stats()
    violations = []
    for i in sorted(answers):
        stats.merge(answers[i]["stats"])
        for c, d in answers[i]["violations"]:
            violations.append((i, c, d))
    if args.digests:
        with open(args.digests, "w") as f:
            for i in sorted(answers):
                f.write(f"{i} {digest([answers[i]['violations'], answers[i]['stats']])}\n")

    known = known_findings(prop)
    listed = {}
    fresh = []
    for i, c, d in violations:
        entry = is_known(known, c, d)
        if entry:
            listed[entry["what"]] = entry
        else:
            fresh.append((i, c, d))
    for what in sorted(listed):
        print(f"KNOWN-FINDING: property={prop} {what}")

    path = None
    if fresh:
        i, cls, detail = fresh[0]
        scenario = answers[i]["scenario"]
        hashseed = HASHSEEDS[i % len(HASHSEEDS)]
        path = write_replay(prop, args.seed, i, cls, detail, scenario, answers[i]["trail"], hashseed)
        w = Worker(i % len(HASHSEEDS))
        small = w.call({
            "property": prop, "want": "shrink", "scenario": scenario, "class": cls,
            "seconds": 40 if args.tier == "quick" else 300,
        })  # fmt: skip
        w.stop()
        ok = [x for x in small.get("violations", ()) if x[0] == cls]
        if ok:
            better = write_replay(prop, args.seed, i, cls, ok[0][1], small["scenario"], small["trail"], hashseed)
            _, again = replay(prop, better)
            if any(c == cls for c, _ in again.get("violations", ())):
                path, detail = better, ok[0][1]
        print(f"scenario {i}: {cls}: {json.dumps(detail, ensure_ascii=False)[:3000]}")

    evidence = {
        "property": prop,
        "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.executions,
            "distinct_nontrivial": len(stats.nontrivial),
            "rule": mod.RULE,
            "samples": [
                {"index": i, "scenario": answers[i]["scenario"], "executions": answers[i]["trail"][:6]}
                for i in sorted(answers) if "scenario" in answers[i]
            ][:2],
            "scenarios": len(answers),
            "scenarios_planned": n,
            "runs_per_hour": round(stats.executions / wall * 3600),
            "seeds_per_hour": round(len(answers) / wall * 3600),
            "simulated_steps": stats.steps,
            "simulated_seconds": round(stats.clock, 3),
            "operations": stats.ops,
            "faults_fired": stats.faults,
            "concurrent_edits": stats.edits,
            "context_switches": stats.switches,
            "distinct_interleavings": len(stats.interleavings),
            "distinct_outcomes": len(stats.states),
            "probes": stats.probes,
            "real_components": "all of mau (lexers, parsers, visitors, environment, message handlers, command line), Jinja2, PyYAML, CPython text and buffer layers, the file contents on a private scratch directory",
            "stubbed_components": "system calls on files and standard output (interposed), thread scheduling, clock, entropy, locale, plugin discovery order; plugins (visitors and template providers) are test doubles registered through real entry points",
            "hash_seeds": list(HASHSEEDS),
            "harness_errors": len(errors),
        },
        "assumptions": [
            "a step is one executed line of mau or one file operation: preemption and asynchronous exceptions happen only between steps",
            "the simulated operating system has the semantics of Linux system calls as coded in sim/vfs.py",
        ],
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }  # fmt: skip
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")
    print(
        f"{prop}: {len(answers)} scenarios, {stats.executions} executions, {stats.steps} steps, "
        f"{len(stats.nontrivial)} distinct non-trivial, {wall:.1f} s"
    )
    print("  faults:", json.dumps(stats.faults, sort_keys=True))
    print("  probes:", json.dumps(stats.probes, sort_keys=True))
    if fresh:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR", e[-3000:], file=sys.stderr)
        return 3
    if not answers:
        print("ERROR nothing was explored", file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
