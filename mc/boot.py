"""
Loads aiootp from the working tree of /repo with every source of
nondeterminism routed through switches this package owns.

Nothing inside aiootp is replaced: the wrapped objects are the standard
library functions it imports (time, system randomness, sleep, Lock).
"""

import fcntl
import os
import sys
import threading
import time

REPO = os.environ.get("VERIF_REPO", "/repo")


class Control:
    """
    Switches for the wrapped standard library functions. `None` means
    the real function is used.
    """

    time_ns = None
    perf_ns = None
    urandom = None


CTL = Control()
TLS = threading.local()

_real_sleep = time.sleep
_real_time_ns = time.time_ns
_real_time = time.time
_real_perf = time.perf_counter
_real_perf_ns = time.perf_counter_ns
_real_urandom = os.urandom
_real_lock = threading.Lock


def _sleep(seconds):
    ctx = getattr(TLS, "ctx", None)
    if ctx is None:
        return _real_sleep(seconds)
    ctx.yield_point()


def _time_ns():
    f = CTL.time_ns
    return _real_time_ns() if f is None else f()


def _time():
    f = CTL.time_ns
    return _real_time() if f is None else f() / 1e9


def _perf():
    f = CTL.perf_ns
    return _real_perf() if f is None else f() / 1e9


def _perf_ns():
    f = CTL.perf_ns
    return _real_perf_ns() if f is None else f()


def _urandom(n):
    f = CTL.urandom
    return _real_urandom(n) if f is None else f(n)


class CoopLock:
    """
    A lock which, inside a scheduled thread, waits by telling the
    scheduler what it's waiting for. Elsewhere it is a plain lock.
    """

    __slots__ = ("_lock", "__weakref__")

    def __init__(self):
        self._lock = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        ctx = getattr(TLS, "ctx", None)
        if ctx is None or not blocking or timeout != -1:
            return self._lock.acquire(blocking, timeout)
        while not self._lock.acquire(False):
            ctx.lock_point(self)
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


_loaded = None


def load():
    """
    Imports aiootp once & returns the module.
    """
    global _loaded
    if _loaded is not None:
        return _loaded

    # everything the package pulls in from outside is imported with the
    # real primitives
    import asyncio, concurrent.futures, concurrent.futures.thread  # noqa
    import concurrent.futures.process, multiprocessing, queue  # noqa
    import random, secrets, logging, tempfile, hypothesis  # noqa
    import aiofiles, aiofiles.os, cryptography  # noqa
    from cryptography.hazmat.primitives.asymmetric import ed25519  # noqa
    from cryptography.hazmat.primitives.asymmetric import x25519  # noqa
    import multiprocessing.context, multiprocessing.managers  # noqa

    time.sleep = _sleep
    time.time_ns = _time_ns
    time.time = _time
    time.perf_counter = _perf
    time.perf_counter_ns = _perf_ns
    os.urandom = _urandom
    random._urandom = _urandom

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True

    real_start = threading.Thread.start

    def start(self):
        # background daemons would be an uncontrolled thread
        if not self.daemon:
            real_start(self)

    lock = open("/tmp/.aiootp-verif-import.lock", "w")
    try:
        fcntl.flock(lock, fcntl.LOCK_EX)
        threading.Lock = CoopLock
        threading.Thread.start = start
        import aiootp
    finally:
        threading.Lock = _real_lock
        threading.Thread.start = real_start
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()

    path = os.path.realpath(aiootp.__file__)
    assert path.startswith(os.path.realpath(REPO) + os.sep), path
    _loaded = aiootp
    return aiootp
