"""Runs the executions of one scenario and keeps the books."""

import json
import os
import subprocess
import sys

from sim import zygote
from sim.rng import digest
from sim.sched import HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULT_BUDGET = 20_000_000


class Stats:
    """Mergeable counters."""

    COUNTERS = ("ops", "faults", "edits", "probes")

    def __init__(self):
        self.executions = 0
        self.steps = 0
        self.io = 0
        self.clock = 0.0
        self.switches = 0
        self.ops = {}
        self.faults = {}
        self.edits = {}
        self.probes = {}
        self.interleavings = set()
        self.states = set()
        self.nontrivial = set()

    def add(self, name, key, n=1):
        d = getattr(self, name)
        d[key] = d.get(key, 0) + n

    def merge(self, other):
        self.executions += other["executions"]
        self.steps += other["steps"]
        self.io += other["io"]
        self.clock += other["clock"]
        self.switches += other["switches"]
        for name in self.COUNTERS:
            for k, n in other[name].items():
                self.add(name, k, n)
        self.interleavings.update(other["interleavings"])
        self.states.update(other["states"])
        self.nontrivial.update(other["nontrivial"])

    def dump(self):
        out = dict(self.__dict__)
        for k, v in out.items():
            if isinstance(v, set):
                out[k] = sorted(v)
        return out


class Sibling:
    """A zygote with another hash seed, for properties that compare processes."""

    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen(
            [sys.executable, "-u", os.path.join(HERE, "sim", "worker.py"), "--serve"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True,
        )  # fmt: skip

    def run(self, spec, timeout):
        try:
            self.p.stdin.write(json.dumps({"spec": spec, "timeout": timeout}) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError as exc:
            raise HarnessError(f"sibling: {exc}") from exc
        if not line:
            raise HarnessError("sibling zygote died")
        ok, value = json.loads(line)
        if not ok:
            raise HarnessError(value)
        return value

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:  # noqa: BLE001
            self.p.kill()


SIBLINGS = {}


class Ex:
    def __init__(self, scratch, timeout=120):
        self.scratch = scratch
        self.timeout = timeout
        self.stats = Stats()
        self.last = None
        self.trail = []  # results of the executions of this scenario
        self.hashseed = int(os.environ.get("PYTHONHASHSEED") or 0)

    def __call__(self, spec, hashseed=None):
        spec.setdefault("budget", DEFAULT_BUDGET)
        if hashseed is None or hashseed == self.hashseed:
            # Through JSON, like a replayed one.
            res = zygote.fork_execute(json.loads(json.dumps(spec)), self.scratch, self.timeout)
            res = json.loads(json.dumps(res))
        else:
            if hashseed not in SIBLINGS:
                SIBLINGS[hashseed] = Sibling(hashseed)
            res = SIBLINGS[hashseed].run(spec, self.timeout)
        s = self.stats
        s.executions += 1
        s.steps += res["total_steps"]
        s.clock += res["clock"]
        for k, n in res["counts"].items():
            if k.startswith("op_"):
                s.add("ops", k[3:], n)
                s.io += n
            elif k.startswith("edit_"):
                s.add("edits", k[5:], n)
            else:
                s.add("faults", k.removeprefix("fault_"), n)
        if res["trace"]:
            s.switches += len(res["trace"])
            s.interleavings.add(digest([res["trace"], sorted(res["steps"].items())]))
        for job in res["jobs"].values():
            s.states.add(digest(job))
        self.trail.append({"fired": res["fired"], "trace": res["trace"][:400], "steps": res["steps"]})
        self.last = res
        return res

    def probe(self, name, n=1):
        self.stats.add("probes", name, n)

    def nontrivial(self, *what):
        self.stats.nontrivial.add(digest(what))
