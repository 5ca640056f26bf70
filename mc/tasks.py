"""
Systematic exploration of asyncio schedules on real code.

A deterministic event loop with virtual time runs one ready callback at
a time. Executor jobs are ready callbacks too, so every blocking call
handed to an executor completes at a chosen moment. The default picks
callbacks in FIFO order & lets time pass only when nothing is ready; a
deviation picks another callback, lets the earliest timer fire early,
cancels a task, or (with `slow`) lets an executor job take so long that
everything else happens first. All schedules with at most K deviations are
enumerated. With `sticky` the default lets each user (a task started by the
first one, with all it starts) run on until it waits, so that one deviation
places everything another user does at any point of its way.
"""

import asyncio
import contextvars
import gc
import heapq
import threading
import weakref
from asyncio import base_events, events

from .boot import TLS


USER = contextvars.ContextVar("user", default=None)
STICKY = [False]  # unless told otherwise


class Stuck(Exception):
    """Nothing can run any more, or everybody only polls."""


class Loop(base_events.BaseEventLoop):
    def __init__(self, devs=(), *, cancellable=None, patience=60):
        super().__init__()
        self._vtime = 0.0
        self.devs = dict(devs)
        self.trace = []
        self.log = []
        self.steps = 0
        self.idle = 0
        self.patience = patience
        self.max_steps = 100_000
        if 60 < patience < 10**6:
            # more users take more steps
            self.max_steps += min(patience**2, 3_000_000)
        self.diverged = False
        self.cancellable = cancellable  # list of tasks or None
        self.cancelled = set()
        self._wake = threading.Event()
        self.real_waits = 0
        self.allow_real = False
        self.slow = False
        self.committed = False  # executor jobs can't be called off
        self.sticky = False
        self.last = None
        self.quiet = False  # no choices while it's set
        self.started = 0
        self.parked = []
        self.jobs = weakref.WeakSet()
        self.slow_callback_duration = 1e9

    # -- plumbing BaseEventLoop expects

    def _write_to_self(self):
        self._wake.set()

    def _process_events(self, event_list):
        pass

    def time(self):
        return self._vtime

    def event(self, *what):
        self.log.append(what)
        self.idle = 0

    def run_in_executor(self, executor, func, *args):
        future = self.create_future()

        def job():
            if future.cancelled() and not self.committed:
                return
            try:
                result = func(*args)
            except BaseException as error:
                if isinstance(error, StopIteration):
                    error = RuntimeError(str(error))
                if not future.cancelled():
                    future.set_exception(error)
            else:
                if not future.cancelled():
                    future.set_result(result)

        context = contextvars.Context()
        context.run(USER.set, USER.get())
        handle = self.call_soon(job, context=context)
        if self.slow:
            self.jobs.add(handle)
        return future

    async def shutdown_default_executor(self, timeout=None):
        return None

    def create_task(self, coro, **kw):
        self.started += 1
        if self.sticky and self.started > 1 and USER.get() is None:
            context = kw.pop("context", None) or contextvars.copy_context()
            context.run(USER.set, self.started)
            kw["context"] = context
        return super().create_task(coro, **kw)

    # -- scheduling

    def _run_once(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Stuck("livelock")
        scheduled, ready = self._scheduled, self._ready
        while scheduled and scheduled[0]._cancelled:
            h = heapq.heappop(scheduled)
            h._scheduled = False
            self._timer_cancelled_count = max(
                0, self._timer_cancelled_count - 1
            )
        live = [h for h in list(ready) if not h._cancelled]
        if len(live) != len(ready):
            ready.clear()
            ready.extend(live)
        if not live and self.parked:
            ready.append(self.parked.pop(0))
            live = list(ready)
        options = len(live)
        choices = list(range(options))
        if scheduled:
            choices.append("t")
        if not choices:
            if self._stopping:
                return
            if self.allow_real and self._wake.wait(5):
                self._wake.clear()
                return
            raise Stuck("deadlock: nothing can run")
        if self.cancellable:
            for k, task in enumerate(self.cancellable):
                if k not in self.cancelled and not task.done():
                    choices.append(("c", k))
        if self.slow and options > 1:
            for k, h in enumerate(live):
                if h in self.jobs:
                    choices.append(("s", k))
        default = choices[0]
        if self.sticky and not self.quiet:
            for k, h in enumerate(live):
                if h._context.get(USER) == self.last:
                    default = k
                    break
        i = len(self.trace)
        if len(choices) > 1 and not self.quiet:
            self.trace.append((default, choices))
            pick = self.devs.get(i, default)
            if pick not in choices:
                pick = tuple(pick) if isinstance(pick, list) else pick
                if pick not in choices:
                    self.diverged = True
                    pick = default
        else:
            pick = default
        if pick == "t":
            if not live:
                ctx = getattr(TLS, "ctx", None)
                if ctx is not None:
                    ctx.yield_point()
                else:
                    self.idle += 1
                    if self.idle > self.patience:
                        raise Stuck("deadlock: everybody only polls")
            h = heapq.heappop(scheduled)
            h._scheduled = False
            self._vtime = max(self._vtime, h._when)
            ready.append(h)
            if live:
                ready.rotate(1)  # it runs now
            h = ready.popleft()
        elif isinstance(pick, tuple) and pick[0] == "s":
            self.parked.append(live[pick[1]])
            del ready[pick[1]]
            return
        elif isinstance(pick, tuple):
            self.cancelled.add(pick[1])
            self.cancellable[pick[1]].cancel()
            return
        else:
            ready.rotate(-pick)
            h = ready.popleft()
            ready.rotate(pick)
        if self.sticky:
            self.last = h._context.get(USER)
        if not h._cancelled:
            h._run()
        h = None


def run(
    main, devs=(), *, patience=60, allow_real=False, slow=False, sticky=None
):
    """
    Runs `main(loop)` (a coroutine function) under one schedule. Returns
    the loop, the result & the exception (or Stuck).
    """
    loop = Loop(devs, patience=patience)
    loop.allow_real = allow_real
    loop.slow = slow
    loop.sticky = STICKY[0] if sticky is None else sticky
    problems = []
    loop.set_exception_handler(lambda lo, c: problems.append(c))
    result = error = None
    old = events._get_running_loop()
    # collecting abandoned asynchronous generators schedules callbacks:
    # that must not happen at random moments
    collecting = gc.isenabled()
    gc.disable()
    try:
        asyncio.set_event_loop(loop)
        main_task = loop.create_task(main(loop))
        main_task.add_done_callback(lambda f: loop.stop())
        try:
            loop.run_forever()
        except Stuck as e:
            error = e
        else:
            if main_task.cancelled():
                error = asyncio.CancelledError()
            elif main_task.exception() is not None:
                error = main_task.exception()
            else:
                result = main_task.result()
    finally:
        # abandon what is left without running it
        for t in asyncio.all_tasks(loop):
            t._log_destroy_pending = False
            coro = t.get_coro()
            try:
                coro.close()
            except BaseException:
                pass
        loop._ready.clear()
        loop._scheduled.clear()
        loop.devs = {}
        asyncio.set_event_loop(None)
        loop.close()
        if collecting:
            gc.enable()
    loop.problems = problems
    return loop, result, error


def run_plain(coro):
    """
    Drives a coroutine to its end with the default schedule.
    """

    async def main(loop):
        return await coro

    _, result, error = run(main, allow_real=True, patience=10**6)
    if error is not None:
        raise error
    return result
