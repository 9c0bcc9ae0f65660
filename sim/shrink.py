"""Minimise a failing scenario: fewer jobs, faults, switches, edits, files and
lines, while the same class of violation persists."""

import copy
import time

LISTS = {"faults", "switches", "acts", "edits", "history", "jobs", "calls", "visitors",
         "body", "argv_extra", "renders", "others", "tasks", "variants"}  # fmt: skip
TEXTS = {"files", "tree"}


def size(scenario):
    import json

    return len(json.dumps(scenario))


def places(obj, path=()):
    """Paths of the parts that can be reduced."""
    if isinstance(obj, dict):
        for k, v in obj.items():
            here = path + (k,)
            if k in TEXTS and isinstance(v, dict):
                yield ("dict", here)
                for name, text in v.items():
                    if isinstance(text, str) and text:
                        yield ("text", here + (name,))
            elif k in LISTS and isinstance(v, list):
                if v:
                    yield ("list", here)
                for i, x in enumerate(v):
                    yield from places(x, here + (i,))
            elif k in ("opts", "config") and isinstance(v, dict):
                if v:
                    yield ("dict", here)
            elif isinstance(v, (dict, list)):
                yield from places(v, here)
    elif isinstance(obj, list):
        for i, x in enumerate(obj):
            yield from places(x, path + (i,))


def get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def put(obj, path, value):
    obj = copy.deepcopy(obj)
    get(obj, path[:-1])[path[-1]] = value
    return obj


def pieces(kind, value):
    if kind == "list":
        return list(value), lambda items: list(items)
    if kind == "dict":
        return list(value.items()), dict
    parts = value.splitlines(keepends=True)
    return parts, lambda items: "".join(items)


def shrink(prop, scenario, cls, ex, seconds):
    deadline = time.monotonic() + seconds
    last = [None]
    fixed = getattr(prop, "KEEP", ())

    def fails(candidate):
        ex.trail = []
        try:
            found = [[c, d] for c, d in prop.check(candidate, ex)]
        except Exception:  # noqa: BLE001
            return False
        if any(c == cls for c, _ in found):
            last[0] = (found, ex.trail)
            return True
        return False

    if not fails(scenario):
        return scenario, []
    best = (scenario, *last[0])
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for kind, path in list(places(best[0])):
            if path[0] in fixed:
                continue
            try:
                value = get(best[0], path)
            except (KeyError, IndexError, TypeError):
                continue
            items, build = pieces(kind, value)
            n = len(items)
            while n >= 1 and time.monotonic() < deadline:
                i = 0
                while i < len(items) and time.monotonic() < deadline:
                    fewer = items[:i] + items[i + n :]
                    candidate = put(best[0], path, build(fewer))
                    if fails(candidate):
                        items = fewer
                        best = (candidate, *last[0])
                        progress = True
                    else:
                        i += n
                n //= 2
    ex.trail = best[2]
    return best[0], best[1]
