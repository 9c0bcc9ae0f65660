"""A worker process: one zygote that checks scenarios on request."""

import gc
import importlib
import json
import os
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)


def scratch_dir():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="mausim-", dir=base)


def main():
    from sim import zygote

    zygote.prepare()
    answers = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    scratch = scratch_dir()
    try:
        gc.collect()
        gc.freeze()
        for line in sys.stdin:
            request = json.loads(line)
            if "spec" in request:
                from sim.sched import HarnessError

                try:
                    value = zygote.fork_execute(request["spec"], scratch, request["timeout"])
                    answers.write(json.dumps([True, value]) + "\n")
                except HarnessError as exc:
                    answers.write(json.dumps([False, str(exc)]) + "\n")
                continue
            answers.write(json.dumps(handle(request, scratch)) + "\n")
    finally:
        from sim import ex

        for s in ex.SIBLINGS.values():
            s.stop()
        zygote.wipe(os.path.join(scratch, "w"))
        os.rmdir(scratch)


def handle(request, scratch):
    from sim.ex import Ex
    from sim.rng import stream

    prop = importlib.import_module("props." + request["property"].lower())
    ex = Ex(scratch)
    out = {"index": request.get("index")}
    try:
        scenario = request.get("scenario")
        if scenario is None:
            rng = stream(request["seed"], request["property"], request["index"])
            scenario = prop.make(rng, request["index"], request["tier"])
            scenario = json.loads(json.dumps(scenario))
        if request.get("want") == "shrink":
            from sim.shrink import shrink

            best, violations = shrink(prop, scenario, request["class"], ex, request["seconds"])
            out.update(scenario=best, violations=violations, trail=ex.trail)
        else:
            violations = [[c, d] for c, d in prop.check(scenario, ex)]
            out["violations"] = violations
            if violations or request.get("sample"):
                out["scenario"] = scenario
                out["trail"] = ex.trail
    except Exception:  # noqa: BLE001
        out["harness"] = traceback.format_exc()
    out["stats"] = ex.stats.dump()
    return out


if __name__ == "__main__":
    main()
