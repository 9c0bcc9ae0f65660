"""Canonical, comparable form of whatever a run returns.

Order of dictionaries is kept (it is observable); object identity is replaced
by numbers in order of first appearance, so that aliasing is observable too.
"""

import enum
import os

ROOT = None  # scratch directory, replaced in strings


def scrub(text):
    if ROOT and ROOT in text:
        text = text.replace(ROOT, "<W>")
    return text


def plain(obj, memo=None, depth=0):
    """Structure of plain data and of the classes of the code under test."""
    if memo is None:
        memo = {}
    if obj is None or isinstance(obj, (bool, int, float)):
        return obj
    if isinstance(obj, str):
        return scrub(str(obj))
    if isinstance(obj, bytes):
        return ["bytes", obj.decode("latin-1")]
    if isinstance(obj, enum.Enum):
        return ["enum", type(obj).__name__, obj.name]
    if depth > 400:
        return ["deep"]
    if isinstance(obj, os.PathLike):
        return ["path", scrub(os.fspath(obj))]
    key = id(obj)
    if key in memo:
        return ["ref", memo[key][0]]
    memo[key] = (len(memo), obj)
    d = depth + 1
    if isinstance(obj, dict):
        return ["dict", [[plain(k, memo, d), plain(v, memo, d)] for k, v in obj.items()]]
    if isinstance(obj, (list, tuple)):
        return ["list", [plain(v, memo, d) for v in obj]]
    if isinstance(obj, (set, frozenset)):
        return ["set", sorted(repr(plain(v, memo, d)) for v in obj)]
    if isinstance(obj, type):
        return ["class", obj.__name__]
    if callable(obj) and hasattr(obj, "__name__"):
        return ["function", obj.__name__]
    if isinstance(obj, BaseException):
        return error(obj)
    if hasattr(obj, "asflatdict"):
        return ["env", plain(obj.asflatdict(), memo, d)]
    state = getattr(obj, "__dict__", None)
    if state is None:
        return ["object", type(obj).__name__]
    return [
        "object",
        type(obj).__name__,
        [[k, plain(v, memo, d)] for k, v in state.items()],
    ]


def public(x):
    """A canonical form without private attributes of objects."""
    if not isinstance(x, list):
        return x
    if len(x) == 3 and x[0] == "object" and isinstance(x[2], list):
        return ["object", x[1], [[k, public(v)] for k, v in x[2] if not str(k).startswith("_")]]
    return [public(v) for v in x]


def message(msg):
    """A Mau message."""
    out = [getattr(msg.type, "name", str(msg.type)), scrub(str(msg.text))]
    for name in ("source", "position", "context", "node_type", "help_text"):
        value = getattr(msg, name, None)
        if value is not None:
            out.append([name, plain(value)])
    data = getattr(msg, "data", None)
    if data is not None:
        out.append(["data", plain(data)])
    return out


def where(msg):
    """(source, line) of a Mau message, line counted from 0."""
    context = getattr(msg, "context", None)
    if context is not None:
        return [context.source, context.start_line]
    position = getattr(msg, "position", None)
    if position is not None:
        return [getattr(msg, "source", None), position[0]]
    return None


def error(exc):
    from mau.message import MauException

    name = type(exc).__name__
    if isinstance(exc, MauException):
        return ["mau-error", message(exc.message)]
    if isinstance(exc, OSError):
        return ["error", name, exc.errno, scrub(str(exc.strerror))]
    if isinstance(exc, SystemExit):
        return ["error", name, plain(exc.code)]
    if isinstance(exc, RecursionError):
        return ["error", name]
    return ["error", name, scrub(str(exc))[:400]]
