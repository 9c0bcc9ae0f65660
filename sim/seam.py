"""Trampolines in the place of the functions that reach the host.

They are planted before the code under test is imported, so that it does not
matter how it got hold of them (``os.stat`` or ``from os import stat``). A
trampoline calls the function that a running execution has put into HOOKS, or
else the real one.
"""

import builtins
import functools
import io
import os
import time

HOOKS = {}

_real = {
    "open": io.open,
    "os_open": os.open,
    "os_write": os.write,
    "os_read": os.read,
    "os_close": os.close,
    "fsync": os.fsync,
    "fdopen": os.fdopen,
}
META = ("replace", "rename", "unlink", "remove", "truncate", "mkdir", "rmdir", "link", "symlink", "utime", "chmod")
PLAIN = (*META, "listdir", "scandir", "stat", "lstat", "urandom", "getpid")
CLOCKS = ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time", "sleep")
# The argument that defaults to the present.
CALENDAR = {"localtime": 0, "gmtime": 0, "ctime": 0, "asctime": 0, "strftime": 1}

for _name in PLAIN:
    _real[_name] = getattr(os, _name)
for _name in (*CLOCKS, *CALENDAR):
    _real[_name] = getattr(time, _name)


class Trampoline:
    """Not a function: like the built-in ones it replaces, it is not bound when
    it is found in a class (logging.Formatter.converter)."""

    def __init__(self, name):
        self.name = name
        self.real = _real[name]
        functools.update_wrapper(self, self.real)

    def __call__(self, *args, **kwargs):
        return HOOKS.get(self.name, self.real)(*args, **kwargs)


_plant = Trampoline


def plant():
    builtins.open = io.open = _plant("open")
    for name in ("open", "write", "read", "close"):
        setattr(os, name, _plant("os_" + name))
    os.fsync = _plant("fsync")
    for name in PLAIN:
        setattr(os, name, _plant(name))
    for name in (*CLOCKS, *CALENDAR):
        setattr(time, name, _plant(name))
    import random

    random._urandom = os.urandom
    _plant_datetime()


def _plant_datetime():
    """datetime.now() and the like read the simulated clock."""
    import datetime

    real = datetime.datetime
    real_date = datetime.date

    class Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, cls.__mro__[1])

    class SimDatetime(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(time.time())

        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    class SimDate(real_date, metaclass=Meta):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    SimDatetime.__name__ = SimDatetime.__qualname__ = "datetime"
    SimDate.__name__ = SimDate.__qualname__ = "date"
    datetime.datetime = SimDatetime
    datetime.date = SimDate
