"""
Systematic exploration of thread schedules on real code.

Exactly one of the program's threads runs at a time. A trace hook makes
each bytecode that may touch shared state in the files of interest a
scheduling point. A schedule is the default policy (keep running the
current thread; on a wait or an end, go round robin) plus a list of
deviations `(point, thread)`. All schedules with at most K deviations
are enumerated, each exactly once.
"""

import dis
import os
import sys
import threading
import _thread
import time

from .boot import TLS, _real_sleep


class Abort(BaseException):
    """Unwinds the threads of an abandoned execution."""


class Ctx:
    __slots__ = ("sched", "tid")

    def __init__(self, sched, tid):
        self.sched = sched
        self.tid = tid

    def yield_point(self):
        self.sched.point(self.tid, "yield")

    def lock_point(self, lock):
        self.sched.wait_for(self.tid, lock)


_VISIBLE_NAMES = {
    "CALL",
    "CALL_FUNCTION_EX",
    "CALL_INTRINSIC_1",
    "STORE_ATTR",
    "DELETE_ATTR",
    "BINARY_SUBSCR",
    "BINARY_SLICE",
    "STORE_SUBSCR",
    "STORE_SLICE",
    "DELETE_SUBSCR",
    "CONTAINS_OP",
    "STORE_GLOBAL",
    "FOR_ITER",
    "BEFORE_WITH",
}

_visible_cache = {}
_line_cache = {}


def _visible(code):
    try:
        return _visible_cache[code]
    except KeyError:
        pass
    offsets = set()
    for ins in dis.get_instructions(code):
        name = ins.opname
        if name in _VISIBLE_NAMES:
            offsets.add(ins.offset)
        elif name == "LOAD_ATTR" and not ins.arg & 1:
            offsets.add(ins.offset)
    _visible_cache[code] = offsets
    return offsets


class Pool:
    """
    Threads which are reused across executions.
    """

    def __init__(self):
        self.workers = []

    def ensure(self, n):
        while len(self.workers) < n:
            w = Worker(len(self.workers))
            self.workers.append(w)
        return self.workers[:n]


class Worker:
    def __init__(self, tid):
        self.tid = tid
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.job = None
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            self.go.acquire()
            job, self.job = self.job, None
            job()


_pool = None
_pool_pid = None


def _get_pool():
    global _pool, _pool_pid
    if _pool is None or _pool_pid != os.getpid():
        _pool, _pool_pid = Pool(), os.getpid()
    return _pool


class Sched:
    """
    One execution of `programs` (callables taking this object's
    `api(tid)`), following `devs`.
    """

    def __init__(
        self,
        programs,
        devs,
        *,
        files,
        mode="opcode",
        max_steps=200_000,
        patience=25,
        funcs=None,
        stall=1.5,
    ):
        self.programs = programs
        self.devs = dict(devs)
        self.match = files
        self.funcs = funcs
        self.mode = mode
        self.max_steps = max_steps
        self.patience = patience
        self.stall = stall
        self.n = len(programs)
        self.trace = []  # (default, enabled) per decision
        self.kinds = []
        self.wheres = []
        self.log = []  # harness events
        self.errors = [None] * self.n
        self.finished = [False] * self.n
        self.external = [False] * self.n
        self.waiting = [None] * self.n
        self.idle = [0] * self.n
        self.steps = 0
        self.current = None
        self.aborting = False
        self.verdict = None  # None | "deadlock" | "livelock" | "hang"
        self.diverged = False
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.mutex = _thread.allocate_lock()
        self._code_ok = {}

    # ---- harness api

    def event(self, *what):
        """
        Records a harness event, which counts as progress.
        """
        self.log.append(what)
        self.idle = [0] * self.n

    # ---- scheduling

    def enabled(self):
        return [
            t
            for t in range(self.n)
            if not self.finished[t]
            and not self.external[t]
            and (self.waiting[t] is None or not self.waiting[t].locked())
        ]

    def _choose(self, tid, kind, enabled, where=None):
        if kind == "op" and tid in enabled:
            default = tid
        elif not enabled:
            return None
        else:
            default = next((t for t in enabled if t > tid), enabled[0])
            if kind == "yield" and default == tid and len(enabled) > 1:
                default = next(t for t in enabled if t != tid)
        i = len(self.trace)
        self.trace.append((default, enabled))
        self.wheres.append((tid, kind, where))
        want = self.devs.get(i)
        if want is not None:
            if want in enabled:
                return want
            self.diverged = True
        return default

    def point(self, tid, kind, where=None):
        if self.aborting:
            raise Abort
        if self.external[tid] or self.current != tid:
            # was blocked outside our control & came back
            with self.mutex:
                self.external[tid] = False
                mine = self.current == tid
            if not mine:
                self.workers[tid].go.acquire()
                if self.aborting:
                    raise Abort
        self.steps += 1
        if self.steps > self.max_steps:
            self._abort("livelock")
            raise Abort
        enabled = self.enabled()
        if kind == "yield":
            self.idle[tid] += 1
            live = [t for t in range(self.n) if not self.finished[t]]
            if all(
                self.idle[t] > self.patience or self.waiting[t] is not None
                for t in live
            ):
                self._abort("deadlock")
                raise Abort
        to = self._choose(tid, kind, enabled, where)
        if to is None:
            self._stuck(tid)
            raise Abort
        if to != tid:
            self._switch(tid, to)

    def wait_for(self, tid, lock):
        """
        Parks the thread until the lock is free.
        """
        self.waiting[tid] = lock
        try:
            self.point(tid, "lock")
        finally:
            self.waiting[tid] = None

    def _switch(self, tid, to):
        self.current = to
        self.workers[to].go.release()
        self.workers[tid].go.acquire()
        if self.aborting:
            raise Abort

    def _stuck(self, tid):
        if any(self.external):
            # somebody may still come back
            deadline = time.monotonic() + self.stall
            while time.monotonic() < deadline:
                _real_sleep(0.005)
                if self.enabled():
                    return self.point(tid, "yield")
        self._abort("deadlock")

    def _abort(self, verdict):
        if not self.aborting:
            self.verdict = verdict
            self.aborting = True

    # ---- tracing

    def _gtrace(self, frame, event, arg):
        code = frame.f_code
        ok = self._code_ok.get(code)
        if ok is None:
            ok = any(m in code.co_filename for m in self.match) and (
                code.co_name != "<module>"
            )
            if ok and self.funcs is not None:
                ok = self.funcs(code)
            self._code_ok[code] = ok
        if not ok:
            return None
        if self.mode == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self._otrace
        return self._ltrace

    def _otrace(self, frame, event, arg):
        if event == "opcode":
            code = frame.f_code
            if frame.f_lasti in _visible(code):
                self.point(TLS.ctx.tid, "op", (code.co_name, frame.f_lasti))
        return self._otrace

    def _ltrace(self, frame, event, arg):
        if event == "line":
            self.point(
                TLS.ctx.tid, "op", (frame.f_code.co_name, frame.f_lineno)
            )
        return self._ltrace

    # ---- running

    def _body(self, tid):
        TLS.ctx = Ctx(self, tid)
        try:
            if self.aborting:
                return
            sys.settrace(self._gtrace)
            try:
                self.programs[tid](self, tid)
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as error:
            self.errors[tid] = error
        finally:
            sys.settrace(None)
            TLS.ctx = None
            self._finish(tid)

    def _finish(self, tid):
        with self.mutex:
            self.finished[tid] = True
            self.external[tid] = False
            self.idle = [0] * self.n
            if all(self.finished):
                self.done.release()
                return
            if not self.aborting and self.current != tid:
                return
        if self.aborting:
            # wake the next unfinished thread so that it unwinds
            for t in range(self.n):
                if not self.finished[t] and not self.external[t]:
                    self.current = t
                    self._wake(t)
                    return
            return
        enabled = self.enabled()
        to = self._choose(tid, "end", enabled)
        if to is None:
            if any(self.external):
                self.current = None
                return
            self._abort("deadlock")
            for t in range(self.n):
                if not self.finished[t]:
                    self.current = t
                    self._wake(t)
                    return
            return
        self.current = to
        self._wake(to)

    def _wake(self, t):
        try:
            self.workers[t].go.release()
        except RuntimeError:
            pass

    def run(self):
        pool = _get_pool()
        self.workers = pool.ensure(self.n)
        for t, w in enumerate(self.workers):
            w.job = lambda t=t: self._body(t)
        first = self._choose(-1, "start", self.enabled())
        self.current = first
        self.workers[first].go.release()
        last, since = -1, time.monotonic()
        while not self.done.acquire(True, 0.3):
            now = time.monotonic()
            if self.steps != last:
                last, since = self.steps, now
                continue
            if now - since < self.stall:
                continue
            since = now
            # the current thread is blocked on something real
            with self.mutex:
                cur = self.current
                if self.aborting:
                    break
                if cur is not None and not self.finished[cur]:
                    self.external[cur] = True
                enabled = self.enabled()
                if enabled:
                    self.current = enabled[0]
                    to = enabled[0]
                else:
                    to = None
            if to is None:
                self.verdict = "hang"
                self.aborting = True
                global _pool
                _pool = None  # threads are lost
                break
            self._wake(to)
        if self.aborting and not all(self.finished):
            # lost threads: give them up with their pool
            deadline = time.monotonic() + 2
            while time.monotonic() < deadline and not all(self.finished):
                _real_sleep(0.01)
            if not all(self.finished):
                _pool = None
        return self


class Result:
    """
    Accumulated coverage of an exploration.
    """

    def __init__(self):
        self.schedules = 0
        self.steps = 0
        self.states = 0
        self.outcomes = {}
        self.by_devs = {}
        self.diverged = 0
        self.unstable = 0
        self.max_points = 0
        self.violation = None  # (message, devs)
        self.capped = False

    def merge(self, other):
        self.schedules += other.schedules
        self.steps += other.steps
        self.states += other.states
        self.diverged += other.diverged
        self.unstable += other.unstable
        self.capped |= other.capped
        self.max_points = max(self.max_points, other.max_points)
        for k, v in other.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in other.by_devs.items():
            self.by_devs[k] = self.by_devs.get(k, 0) + v
        if other.violation and not self.violation:
            self.violation = other.violation


def _children(trace, devs):
    last = devs[-1][0] if devs else -1
    for i in range(last + 1, len(trace)):
        default, enabled = trace[i]
        for t in enabled:
            if t != default:
                yield devs + [(i, t)]


def run_one(execute, devs, res):
    """
    `execute(devs)` -> (trace, steps, outcome, message | None, diverged)
    """
    trace, steps, outcome, message, diverged = execute(devs)
    res.schedules += 1
    res.steps += steps
    last = devs[-1][0] if devs else -1
    res.states += len(trace) - last - 1
    res.max_points = max(res.max_points, len(trace))
    res.by_devs[len(devs)] = res.by_devs.get(len(devs), 0) + 1
    key = hash(outcome) & 0xFFFFFFFFFFFF
    res.outcomes[key] = res.outcomes.get(key, 0) + 1
    if diverged:
        res.diverged += 1
    if message is not None and res.violation is None:
        res.violation = (message, devs)
    return trace


def _dfs(execute, devs, depth, res, deadline):
    if res.violation:
        return
    if deadline and time.monotonic() > deadline:
        res.capped = True
        return
    trace = run_one(execute, devs, res)
    if res.violation or depth == 0:
        return
    for child in _children(trace, devs):
        _dfs(execute, child, depth - 1, res, deadline)
        if res.violation or res.capped:
            return


def explore(execute, bound, *, shard=(0, 1), deadline=None):
    """
    Enumerates all schedules with at most `bound` deviations; `shard`
    (i, n) takes every n-th first deviation.
    """
    res = Result()
    i, n = shard
    # the first traced run of a process misses events; afterwards the
    # default schedule must repeat itself exactly
    execute([])
    first, again = execute([]), execute([])
    if first[0] != again[0] or first[2] != again[2]:
        res.unstable = 1
    root = Result()
    trace = run_one(execute, [], root)
    if i == 0 or root.violation:
        res.merge(root)
    if res.violation or bound == 0:
        return res
    for k, child in enumerate(_children(trace, [])):
        if k % n == i:
            _dfs(execute, child, bound - 1, res, deadline)
            if res.violation or res.capped:
                break
    return res
