"""
C25: work in threads & processes delivers each job's own result once.
"""

import asyncio
import functools
import importlib
import itertools
import multiprocessing
import os
import shutil
import stat
import threading
import time
from concurrent.futures import Executor, Future, ProcessPoolExecutor, ThreadPoolExecutor

from mc import boot
from mc.report import Check, pmap
from .c12 import scratch

A = boot.load()
asynchs = importlib.import_module("aiootp.asynchs")
PATIENCE = 60


class Bad(Exception):
    pass


class Oops(Exception):
    """
    The failure of a job.
    """


def interface(name):
    return getattr(A.asynchs, name)


# ---- jobs -------------------------------------------------------------


def touch(path):
    os.close(os.open(path, os.O_CREAT | os.O_WRONLY, 0o600))


def note(root, i):
    fd = os.open(os.path.join(root, f"ran{i}"), os.O_CREAT | os.O_WRONLY | os.O_APPEND)
    os.write(fd, b"x")
    os.close(fd)


def await_gate(root, i):
    start = time.monotonic()
    while not os.path.exists(os.path.join(root, f"go{i}")):
        if time.monotonic() - start > PATIENCE:
            raise RuntimeError("the check never opened the gate")
        time.sleep(0.0003)


def job(i, fails, root, *args, **kw):
    note(root, i)
    await_gate(root, i)
    touch(os.path.join(root, f"done{i}"))
    if fails:
        raise Oops(i)
    return i, args, kw


async def ajob(i, fails, root, *args, **kw):
    await asyncio.sleep(0)
    return job(i, fails, root, *args, **kw)


def abound(i, fails):
    async def bound(root, *args, **kw):
        return await ajob(i, fails, root, *args, **kw)

    return bound


def runs(root, i):
    try:
        return os.path.getsize(os.path.join(root, f"ran{i}"))
    except FileNotFoundError:
        return 0


class Opener(threading.Thread):
    """
    Lets the jobs finish one after the other.
    """

    def __init__(self, root, order):
        super().__init__(daemon=True)
        self.root, self.order = root, order
        self.over = False

    def run(self):
        for i in self.order:
            touch(os.path.join(self.root, f"go{i}"))
            start = time.monotonic()
            while not os.path.exists(os.path.join(self.root, f"done{i}")):
                if self.over or time.monotonic() - start > PATIENCE:
                    break
                time.sleep(0.0003)


def bounded(call, *args, **kw):
    """
    The call's outcome, as long as it has one.
    """
    out = []

    def run():
        try:
            out.append((call(*args, **kw), None))
        except BaseException as e:
            out.append((None, e))

    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(PATIENCE)
    if not out:
        for p in multiprocessing.active_children():
            p.kill()
        raise Bad(f"no result of {call.__qualname__}{str(args)[:200]} after {PATIENCE} s")
    return out[0]


def own_pool(name, workers):
    T = interface(name)
    if name == "Threads":
        T.pool = ThreadPoolExecutor(workers)
    else:
        T.pool = ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context("spawn"))
    return T


# ---- orders of completion --------------------------------------------


async def outcome(awaitable):
    try:
        return await awaitable, None
    except BaseException as e:
        return None, e


async def asubmitted(T, func, root, n, fails):
    futures = [
        await T.asubmit(func, i, i in fails, root, i * 7, k=i, probe_delay=0.0004) for i in range(n)
    ]
    first = [await outcome(f.aresult()) for f in futures]
    again = [await outcome(f.aresult()) for f in futures]
    return first, again


def submitted(T, root, n, fails):
    futures = [T.submit(job, i, i in fails, root, i * 7, k=i, probe_delay=0.0004) for i in range(n)]

    def get(f):
        try:
            return f.result(), None
        except BaseException as e:
            return None, e

    return [get(f) for f in futures], [get(f) for f in futures]


def orders(name, how, n, order_part, order_parts):
    T = own_pool(name, n)
    done = 0
    base = scratch()
    try:
        k = 0
        for order in itertools.permutations(range(n)):
            for fails in itertools.chain.from_iterable(
                itertools.combinations(range(n), r) for r in range(n + 1)
            ):
                k += 1
                if k % order_parts != order_part:
                    continue
                root = os.path.join(base, str(k))
                os.mkdir(root)
                opener = Opener(root, order)
                opener.start()
                what = f"{name} {how}, finishing {order}, failing {fails}"
                done += 1
                if how in ("submit", "asubmit", "asubmit async"):
                    if how == "submit":
                        res, e = bounded(submitted, T, root, n, fails)
                    else:
                        func = ajob if how.endswith("async") else job
                        res, e = bounded(asyncio.run, asubmitted(T, func, root, n, fails))
                    if e is not None:
                        raise Bad(f"{what}: {e!r}")
                    for got in res:
                        for i, (value, e) in enumerate(got):
                            if i in fails:
                                if type(e) is not Oops or e.args != (i,):
                                    raise Bad(f"{what}: {i} gave {value} {e!r}")
                            elif e is not None or value != (i, (i * 7,), {"k": i}):
                                raise Bad(f"{what}: {i} gave {value} {e!r}")
                else:
                    kw = dict(args=(root, "arg"), kwargs=dict(key="word"))
                    if how == "agather async":
                        functions = [abound(i, i in fails) for i in range(n)]
                    else:
                        functions = [functools.partial(job, i, i in fails) for i in range(n)]
                    if how == "gather":
                        res, e = bounded(T.gather, *functions, **kw)
                    else:

                        async def go():
                            return await T.agather(*functions, **kw)

                        res, e = bounded(asyncio.run, go())
                    if fails:
                        if type(e) is not Oops or e.args[0] not in fails:
                            raise Bad(f"{what}: {res} {e!r}")
                    elif e is not None or res != [(i, ("arg",), {"key": "word"}) for i in range(n)]:
                        raise Bad(f"{what}: {res} {e!r}")
                opener.over = True
                opener.join()
                for i in range(n):
                    times = runs(root, i)
                    if times != 1 and not (fails and "gather" in how and times == 0):
                        raise Bad(f"{what}: {i} ran {times} times")
    finally:
        interface(name).pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(base, ignore_errors=True)
    return done


# ---- a pool which does as told ----------------------------------------


class TamePool(Executor):
    def __init__(self):
        self.jobs = []

    def submit(self, fn, /, *args, **kwargs):
        future = Future()
        self.jobs.append((future, fn, args, kwargs))
        return future

    def finish(self, i):
        future, fn, args, kwargs = self.jobs[i]
        if not future.set_running_or_notify_cancel():
            return
        try:
            future.set_result(fn(*args, **kwargs))
        except BaseException as e:
            future.set_exception(e)


def tame(name, n, first):
    """
    Every order of finishing jobs & asking for their results.
    """
    T = interface(name)
    events = [(what, i) for what in ("finish", "ask") for i in range(n)]
    done = 0
    loop = asyncio.new_event_loop()
    ran = []

    def work(i, fails, *args, **kw):
        ran.append(i)
        if fails:
            raise Oops(i)
        return i, args, kw

    async def one(order, fails):
        T.pool = TamePool()
        ran.clear()
        futures = []
        for i in range(n):
            submit = T.submit if i % 2 else T.asubmit
            f = submit(work, i, i in fails, "a", b=i, probe_delay=1e-9)
            futures.append(f if i % 2 else await f)
        asked = {}
        for what, i in order:
            if what == "finish":
                T.pool.finish(i)
            else:
                asked[i] = asyncio.ensure_future(outcome(futures[i].aresult()))
            for _ in range(2):
                await asyncio.sleep(0)
            for j, t in asked.items():
                if t.done() and not T.pool.jobs[j][0].done():
                    raise Bad(f"{order}: an answer before {j} was done")
        for i in range(n):
            value, e = await asyncio.wait_for(asked[i], PATIENCE)
            later = await outcome(asyncio.to_thread(futures[i].result)) if first == 0 else (value, e)
            for v, x in ((value, e), later):
                if i in fails:
                    if type(x) is not Oops or x.args != (i,):
                        raise Bad(f"{order} failing {fails}: {i} gave {v} {x!r}")
                elif x is not None or v != (i, ("a",), {"b": i}):
                    raise Bad(f"{order} failing {fails}: {i} gave {v} {x!r}")
        if sorted(ran) != list(range(n)):
            raise Bad(f"{order}: {ran} ran")

    try:
        for tail in itertools.permutations([e for e in events if e != events[first]]):
            for fails in itertools.chain.from_iterable(
                itertools.combinations(range(n), r) for r in range(n + 1)
            ):
                done += 1
                loop.run_until_complete(one((events[first], *tail), fails))
    finally:
        loop.close()
    return done


def arguments(name):
    """
    Whatever the arguments & their names are, they arrive.
    """
    T = interface(name)
    done = 0
    names = ("func", "fn", "queue", "cls", "self", "args", "kwargs", "target", "name", "future", "x")
    values = (None, 0, "", b"", (), False, [1], {"a": ()}, 1.5)
    shapes = [((), {}), ((None,), {}), (values, {}), ((), {n: n for n in names})]
    shapes += [((v,), {"x": v}) for v in values] + [((1, 2), {n: 1}) for n in names]

    def echo(*a, **kw):
        return a, kw

    async def aecho(*a, **kw):
        await asyncio.sleep(0)
        return a, kw

    async def forms(a, kw):
        yield "anew", await T.anew(echo, *a, **kw, probe_delay=0.0004)
        yield "anew async", await T.anew(aecho, *a, **kw, probe_delay=0.0004)
        yield "new", T.new(echo, *a, **kw, probe_delay=0.0004)
        yield "submit", T.submit(echo, *a, **kw, probe_delay=0.0004).result()
        yield "asubmit", await (await T.asubmit(echo, *a, **kw)).aresult()
        yield "asubmit async", await (await T.asubmit(aecho, *a, **kw)).aresult()
        yield "gather", T.gather(echo, args=a, kwargs=kw)[0]
        yield "agather", (await T.agather(aecho, args=a, kwargs=kw))[0]

    async def go():
        nonlocal done
        for a, kw in shapes:
            async for how, got in forms(a, kw):
                done += 1
                if got != (tuple(a), kw):
                    raise Bad(f"{name} {how}: {got} instead of {(a, kw)}")

    def nothing():
        return T.gather(), asyncio.run(T.agather())

    own_pool(name, 2)
    try:
        res, e = bounded(asyncio.run, go())
        if e is not None:
            raise e
        res, e = bounded(nothing)
        if e is not None or res != ([], []):
            raise Bad(f"{name}: nothing gathered gave {res} {e!r}")
    finally:
        T.pool.shutdown()
    return done


def repeated(name, count):
    """
    The same function more than once, & more jobs than workers.
    """
    T = own_pool(name, 2)
    done = 0
    root = scratch()
    functions = [functools.partial(counted, i % 2) for i in range(count)]
    functions += functions[:3] + [functions[0]] * 3
    want = [f.args[0] for f in functions]

    def total():
        return sum(os.path.getsize(os.path.join(root, x)) for x in os.listdir(root))

    try:
        for how in ("gather", "agather"):
            done += 1
            before = total()
            if how == "gather":
                res, e = bounded(T.gather, *functions, args=(root,))
            else:

                async def go():
                    return await T.agather(*functions, args=(root,))

                res, e = bounded(asyncio.run, go())
            if e is not None or res != want:
                raise Bad(f"{name} {how} of {len(want)}: {res} {e!r}")
            if total() - before != len(want):
                raise Bad(f"{name} {how}: {total() - before} jobs of {len(want)} ran")
    finally:
        T.pool.shutdown()
        shutil.rmtree(root, ignore_errors=True)
    return done


def counted(i, root):
    note(root, i)
    return i


# ---- single threads & processes ---------------------------------------


def give(kind, size):
    if kind == "bytes":
        return bytes(size)
    if kind == "list":
        return list(range(size))
    if kind == "fail":
        raise Oops(size)
    if kind == "exit":
        os._exit(3)
    return {"none": None, "zero": 0, "false": False, "empty": ""}[kind]


async def agive(kind, size):
    await asyncio.sleep(0)
    return give(kind, size)


def quiet():
    """
    Failing jobs' processes would write to the same error output.
    """
    threading.excepthook = lambda *a: None
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)


def single(name, form, kind, size):
    """
    Results of any size & kind come back; failures are errors.
    """
    T = interface(name)
    quiet()
    if form == "new":
        res, e = bounded(T.new, give, kind, size)
    else:

        async def go():
            return await T.anew(agive if form == "anew async" else give, kind, size)

        res, e = bounded(asyncio.run, go())
    what = f"{name}.{form} of {kind} {size}"
    if kind in ("fail", "exit"):
        if e is None:
            raise Bad(f"{what} gave {res!r}")
    elif e is not None or res != give(kind, size) or type(res) is not type(give(kind, size)):
        raise Bad(f"{what} gave {str(res)[:80]!r} {e!r}")
    return 1


def at_once(name, n, part, parts):
    """
    Several at once, finishing in every order, with every failing subset.
    """
    T = interface(name)
    quiet()
    done = 0
    base = scratch()
    k = 0
    try:
        for order in itertools.permutations(range(n)):
            for fails in itertools.chain.from_iterable(
                itertools.combinations(range(n), r) for r in range(n + 1)
            ):
                for func in (job, ajob):
                    k += 1
                    if k % parts != part:
                        continue
                    done += 1
                    root = os.path.join(base, str(k))
                    os.mkdir(root)
                    opener = Opener(root, order)
                    opener.start()

                    async def go():
                        return await asyncio.gather(
                            *[
                                outcome(T.anew(func, i, i in fails, root, probe_delay=0.0004))
                                for i in range(n)
                            ]
                        )

                    got, e = bounded(asyncio.run, go())
                    what = f"{name}.anew, finishing {order}, failing {fails}"
                    if e is not None:
                        raise Bad(f"{what}: {e!r}")
                    for i, (value, e) in enumerate(got):
                        if (i in fails) != (e is not None):
                            raise Bad(f"{what}: {i} gave {value} {e!r}")
                        if i not in fails and value != (i, (), {}):
                            raise Bad(f"{what}: {i} gave {value}")
                        if runs(root, i) != 1:
                            raise Bad(f"{what}: {i} ran {runs(root, i)} times")
                    opener.join()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return done


def broken():
    """
    A pool whose worker died fails its jobs & works after a reset.
    """
    T = own_pool("Processes", 1)
    done = 0

    def one(call):
        nonlocal done
        done += 1
        return bounded(call)

    try:
        for _ in range(2):
            if one(lambda: T.submit(give, "bytes", 3).result()) != (bytes(3), None):
                raise Bad("a fresh pool doesn't work")
            for _ in range(2):
                res, e = one(lambda: T.submit(give, "exit", 0).result())
                if not isinstance(e, T.BrokenPool):
                    raise Bad(f"a dead worker gave {res} {e!r}")
            T.pool.shutdown()
            T.reset_pool()
    finally:
        T.pool.shutdown()
    return done


def restarted(name, form):
    """
    A pool which was replaced, & a passphrase hash whose workers die: it
    fails, & the next one works, in a new pool.
    """
    T = interface(name)
    if name == "Threads":
        old = T.pool
        slow = T.submit(time.sleep, 0.05)
        T.reset_pool()
        res = bounded(lambda: T.submit(give, "bytes", 3).result())
        if T.pool is old or res != (bytes(3), None) or slow.result() is not None:
            raise Bad(f"a new pool of threads: {res}")
        return 2
    quiet()
    T = own_pool("Processes", 1)
    try:
        hasher = A.Passcrypt(mb=1, cpu=1, cores=2, tag_size=32)
        args = b"a fine passphrase", b"a salt of its own"

        def one():
            if form:
                return bounded(lambda: asyncio.run(hasher.anew(*args)))
            return bounded(lambda: hasher.new(*args))

        good, e = one()
        if e is not None:
            raise Bad(f"no hash: {e!r}")
        for _ in range(2):
            bounded(lambda: T.submit(give, "exit", 0).result())
            got, e = one()
            if e is None:
                raise Bad("a hash in a pool without workers")
            again, e = one()
            if again != good:
                raise Bad(f"hashing after a broken pool: {again} {e!r}")
    finally:
        T.pool.shutdown()
    return 5


def executor(first, depth):
    """
    All histories of file system calls through the executor, against the
    plain ones.
    """
    aos = importlib.import_module("aiootp.asynchs.aos")
    ops = [
        ("mkdir", ("a",)),
        ("mkdir", ("a", 0o700)),
        ("makedirs", ("a/b",)),
        ("rename", ("a", "c")),
        ("rename", ("f", "a/f")),
        ("remove", ("f",)),
        ("rmdir", ("a",)),
        ("rmdir", ("c",)),
        ("chmod", ("f", 0o400)),
        ("stat", ("f",)),
        ("stat", ("a",)),
    ]
    done = 0
    base = scratch()
    loop = asyncio.new_event_loop()

    def picture(root):
        out = []
        for d, dirs, files in sorted(os.walk(root)):
            for x in sorted(dirs + files):
                p = os.path.join(d, x)
                out.append((os.path.relpath(p, root), stat.S_IMODE(os.stat(p).st_mode)))
        return out

    def do(call, root, args):
        args = [os.path.join(root, x) if type(x) is str else x for x in args]
        try:
            res = call(*args)
            if asyncio.iscoroutine(res):
                res = loop.run_until_complete(res)
            return (res.st_mode, res.st_size) if hasattr(res, "st_mode") else res
        except Exception as e:
            return type(e)

    try:
        k = 0
        for tail in itertools.product(ops, repeat=depth - 1):
            k += 1
            roots = [os.path.join(base, f"{k}{x}") for x in "pq"]
            for r in roots:
                os.mkdir(r)
                with open(os.path.join(r, "f"), "wb") as f:
                    f.write(b"content")
            for name, args in (ops[first], *tail):
                done += 1
                one = do(getattr(os, name), roots[0], args)
                two = do(getattr(aos, name), roots[1], args)
                if one != two or picture(roots[0]) != picture(roots[1]):
                    raise Bad(f"{(ops[first], *tail)}: {name}{args} gave {two}, not {one}")
            for r in roots:
                shutil.rmtree(r)
    finally:
        loop.close()
        shutil.rmtree(base, ignore_errors=True)
    return done


def wrapped(n):
    """
    Wrapped functions run at once & finish in every order.
    """
    wrap = A.asynchs.wrap_in_executor
    done = 0
    base = scratch()
    f = wrap(job)
    loop = asyncio.new_event_loop()
    loop.set_default_executor(ThreadPoolExecutor(n))
    try:
        for k, (order, mask) in enumerate(
            itertools.product(itertools.permutations(range(n)), range(2**n))
        ):
            done += 1
            root = os.path.join(base, str(k))
            os.mkdir(root)
            opener = Opener(root, order)
            opener.start()

            async def go():
                return await asyncio.gather(
                    *[outcome(f(i, bool(mask >> i & 1), root, i, k=i)) for i in range(n)]
                )

            for i, (value, e) in enumerate(loop.run_until_complete(go())):
                if mask >> i & 1:
                    if type(e) is not Oops or e.args != (i,):
                        raise Bad(f"wrapped {order} {mask}: {i} gave {value} {e!r}")
                elif e is not None or value != (i, (i,), {"k": i}):
                    raise Bad(f"wrapped {order} {mask}: {i} gave {value} {e!r}")
                if runs(root, i) != 1:
                    raise Bad(f"wrapped {order} {mask}: {i} ran {runs(root, i)} times")
            opener.join()
    finally:
        loop.close()
        shutil.rmtree(base, ignore_errors=True)
    return done


SECTIONS = dict(
    orders=orders,
    tame=tame,
    arguments=arguments,
    repeated=repeated,
    single=single,
    at_once=at_once,
    broken=broken,
    restarted=restarted,
    executor=executor,
    wrapped=wrapped,
)


def jobs_for(thorough):
    jobs = []
    # the slow ones first
    for how in ("submit", "asubmit", "asubmit async", "gather", "agather"):
        jobs.append(("orders", ("Processes", how, 3, 0, 1)))
    jobs.append(("broken", ()))
    for name, form in (("Processes", 0), ("Processes", 1), ("Threads", 0)):
        jobs.append(("restarted", (name, form)))
    kinds = [("bytes", 1), ("bytes", 70_000), ("bytes", 1_500_000), ("list", 30_000), ("none", 0), ("fail", 1), ("exit", 0)]
    if thorough:
        kinds += [("zero", 0), ("false", 0), ("empty", 0), ("bytes", 0), ("bytes", 65_535), ("bytes", 2**24)]
    for form in ("new", "anew", "anew async"):
        for kind, size in kinds:
            jobs.append(("single", ("Processes", form, kind, size)))
        for kind, size in kinds + [("zero", 0), ("false", 0), ("empty", 0), ("bytes", 2**22)]:
            if kind != "exit":
                jobs.append(("single", ("Threads", form, kind, size)))
    parts = 16 if thorough else 8
    for i in range(parts if thorough else 3):
        jobs.append(("at_once", ("Processes", 2, i, parts)))
    for i in range(4):
        jobs.append(("at_once", ("Threads", 3, i, 4)))
    n = 4
    for how in ("submit", "asubmit", "asubmit async", "gather", "agather", "agather async"):
        for i in range(4):
            jobs.append(("orders", ("Threads", how, n, i, 4)))
    for name in ("Threads", "Processes"):
        for first in range(6):
            jobs.append(("tame", (name, 3, first)))
    jobs.append(("arguments", ("Threads",)))
    for count in (12, 70):
        jobs.append(("repeated", ("Processes", count)))
    for count in (30, 100, 300, *((1100,) if thorough else ())):
        jobs.append(("repeated", ("Threads", count)))
    for first in range(11):
        jobs.append(("executor", (first, 4 if thorough else 3)))
    jobs.append(("wrapped", (4 if thorough else 3,)))
    return jobs


def work(job):
    name, args = job
    try:
        return SECTIONS[name](*args), None
    except Bad as e:
        return 0, str(e)[:1500]


def main():
    check = Check("C25", "model_checking")
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, (n, problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=n, transitions=n, traces=n)
        check.part(name, jobs=1, runs=n)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    for job in jobs[::10]:
        check.sample(repr(job)[:200])
    return check.finish()


def replay(data):
    out = work(jobs_for(data["tier"] == "thorough")[data["job"]])
    print(out)
    return 1 if out[1] else 0
