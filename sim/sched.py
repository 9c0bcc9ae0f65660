"""Deterministic scheduler.

Tasks are real threads, but only the one that holds the baton runs; the others
are parked on a private raw lock. Every executed line of the code under test
(`sys.monitoring` LINE events) and every simulated I/O operation is a step; a
step is the only place where the baton can change hands, where an asynchronous
exception is delivered, where the editor changes a file, or where the step
budget is enforced. The schedule is data: (task, task-local step) -> target.
"""

import _thread
import sys

TOOL = 4


class SimCrash(BaseException):
    """The process dies here: nothing after this point has any effect."""


class BudgetExceeded(BaseException):
    """The task executed more steps than its budget allows."""


class SimDeadlock(BaseException):
    """All tasks wait for each other."""


BEAT = None  # shared with the parent, which sees that steps are being made


class HarnessError(Exception):
    """The simulator itself is at fault: never reported as a violation."""


class Stalled(HarnessError):
    """One step of the code never ends (nothing can be scheduled any more)."""


class Task:
    def __init__(self, tid, fn, *, switches=None, actions=None, budget=None):
        self.tid = tid
        self.fn = fn
        self.steps = 0
        self.io_ops = 0
        # {step: target tid}
        self.switches = dict(switches or {})
        # {step: [callable]} - interrupts and edits
        self.actions = dict(actions or {})
        self.budget = budget or 50_000_000
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "new"
        self.wants = None
        self.ident = None
        self.error = None
        # {(code, line): [hits, steps of some of them]}, if wanted
        self.lines = None
        self.io_steps = []
        self.pending = sorted(set(self.switches) | set(self.actions) | {self.budget})
        self.next_event = self.pending[0]


class Scheduler:
    def __init__(self, prefixes):
        self.prefixes = tuple(prefixes)
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.done_lock = _thread.allocate_lock()
        self.trace = []  # (from, step, to)
        self.total = 0
        self.trace_points = []  # code locations of switches
        self.installed = False

    # -- instrumentation ---------------------------------------------------

    def install(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "mausim")
        prefixes = self.prefixes
        disable = mon.DISABLE
        by_ident = self.by_ident
        get_ident = _thread.get_ident
        handle = self._event
        beat = BEAT if BEAT is not None else bytearray(1)

        def on_line(code, line):
            if not code.co_filename.startswith(prefixes):
                return disable
            task = by_ident.get(get_ident())
            if task is None:
                return None
            steps = task.steps = task.steps + 1
            if not steps & 255:
                beat[0] = (beat[0] + 1) & 255
            lines = task.lines
            if lines is not None:
                seen = lines.get((code, line))
                if seen is None:
                    lines[code, line] = [1, [steps]]
                else:
                    seen[0] = n = seen[0] + 1
                    if not n & (n - 1) or n < 5:
                        seen[1].append(steps)
            if steps >= task.next_event:
                handle(task, (code, line))
            return None

        mon.register_callback(TOOL, mon.events.LINE, on_line)
        mon.set_events(TOOL, mon.events.LINE)
        self.installed = True

    def _event(self, task, where):
        step = task.steps
        while task.pending and task.pending[0] <= step:
            due = task.pending.pop(0)
            task.next_event = task.pending[0] if task.pending else task.budget
            if due in task.switches:
                self._preempt(task, task.switches[due], where)
            for action in task.actions.get(due, ()):
                action(task, where)
        if step >= task.budget:
            # Keep raising, in case the code swallows it.
            task.next_event = step + 200
            task.budget = step + 200
            raise BudgetExceeded(f"more than {step} steps")
        task.next_event = task.pending[0] if task.pending else task.budget

    def io_step(self, task):
        """An I/O operation is a step of its own."""
        task.steps += 1
        if task.lines is not None and len(task.io_steps) < 2000:
            task.io_steps.append(task.steps)
        if task.steps >= task.next_event:
            self._event(task, None)

    # -- baton ---------------------------------------------------------------

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def _preempt(self, task, target, where):
        if target >= len(self.tasks):
            target %= len(self.tasks)
        other = self.tasks[target]
        if other is task or other.state not in ("new", "ready"):
            return
        if where is not None:
            code, line = where
            self.trace_points.append((code.co_filename[-40:], line))
        self.trace.append((task.tid, task.steps, other.tid))
        self._hand_over(task, other)

    def _hand_over(self, task, other):
        task.state = "ready"
        self._start_or_release(other)
        task.lock.acquire()
        self.current = task
        task.state = "running"

    def _start_or_release(self, other):
        self.current = other
        if other.state == "new":
            other.state = "running"
            _thread.start_new_thread(self._main, (other,))
        else:
            other.state = "running"
            other.lock.release()

    def _next_ready(self, after):
        n = len(self.tasks)
        for k in range(1, n + 1):
            t = self.tasks[(after + k) % n]
            if t.state in ("new", "ready"):
                return t
        return None

    def _main(self, task):
        task.ident = _thread.get_ident()
        self.by_ident[task.ident] = task
        try:
            task.fn()
        except BaseException as exc:  # noqa: BLE001
            task.error = exc
        finally:
            self.by_ident.pop(task.ident, None)
            task.state = "done"
            self._wake_waiters()
            nxt = self._next_ready(task.tid)
            if nxt is None:
                blocked = [t for t in self.tasks if t.state == "blocked"]
                if blocked:
                    # Deadlock: let the first blocked task fail.
                    blocked[0].wants = "deadlock"
                    blocked[0].state = "ready"
                    self._start_or_release(blocked[0])
                else:
                    self.done_lock.release()
            else:
                self._start_or_release(nxt)

    def run(self, tasks, first=0):
        self.tasks = tasks
        self.done_lock.acquire()
        for i, t in enumerate(tasks):
            assert t.tid == i
        self._start_or_release(tasks[first % len(tasks)])
        self.done_lock.acquire()
        self.done_lock.release()
        self.total += sum(t.steps for t in tasks)

    # -- cooperative locks ---------------------------------------------------

    def _wake_waiters(self):
        for t in self.tasks:
            if t.state == "blocked" and (t.wants is None or t.wants.free()):
                t.state = "ready"
                t.wants = None

    def block_on(self, task, lock):
        """Park the task until the lock is free."""
        while not lock.free():
            task.wants = lock
            task.state = "blocked"
            self._wake_waiters()
            nxt = self._next_ready(task.tid)
            if nxt is None:
                task.state = "running"
                raise SimDeadlock("every task waits for a lock")
            self.trace.append((task.tid, task.steps, nxt.tid))
            self._start_or_release(nxt)
            task.lock.acquire()
            self.current = task
            task.state = "running"
            if task.wants == "deadlock":
                task.wants = None
                raise SimDeadlock("every task waits for a lock")


ACTIVE = None  # the scheduler of this process, if any


class SimLock:
    """Replaces threading.Lock: never blocks the baton holder for real."""

    def __init__(self):
        self._owner = None
        self._real = _thread.allocate_lock()

    def free(self):
        return self._owner is None

    def _task(self):
        return ACTIVE.me() if ACTIVE is not None else None

    def acquire(self, blocking=True, timeout=-1):
        task = self._task()
        if task is None:
            got = self._real.acquire(blocking, timeout)
            if got:
                self._owner = ("real", _thread.get_ident())
            return got
        if not self.free():
            if not blocking:
                return False
            ACTIVE.block_on(task, self)
        self._owner = ("task", task.tid)
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        kind = self._owner[0]
        self._owner = None
        if kind == "real":
            self._real.release()
        elif ACTIVE is not None:
            ACTIVE._wake_waiters()

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._real = _thread.allocate_lock()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self._count = 0

    def _who(self):
        task = self._task()
        if task is None:
            return ("real", _thread.get_ident())
        return ("task", task.tid)

    def acquire(self, blocking=True, timeout=-1):
        if self._owner is not None and self._owner == self._who():
            self._count += 1
            return True
        got = super().acquire(blocking, timeout)
        if got:
            self._owner = self._who()
            self._count = 1
        return got

    __enter__ = acquire

    def release(self):
        if self._owner != self._who():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            super().release()

    def _is_owned(self):
        return self._owner == self._who()

    def _release_save(self):
        count, self._count = self._count, 0
        SimLock.release(self)
        return count

    def _acquire_restore(self, state):
        super().acquire()
        self._owner = self._who()
        self._count = state

    def _at_fork_reinit(self):
        super()._at_fork_reinit()
        self._count = 0


def patch_threading():
    """Must run before the code under test is imported."""
    import threading

    threading.Lock = SimLock
    threading.RLock = SimRLock
