"""
C04: salt files under concurrent use, explored as an unprivileged user
in a scratch directory.
"""

import asyncio
import errno
import itertools
import os
import shutil
import stat
import sys
import tempfile
from pathlib import Path

from mc import boot, tasks, threads
from mc.report import Check, pmap, WORKERS

A = boot.load()
from aiootp import _paths as P  # noqa: E402

NOBODY = 65534
SALTS = {"0": b"\x00" * 32, "1": b"\x11" * 32, "2": b"\x22" * 48, "3": b"\x33" * 32}
KEY = b"k" * 32
FUNCS = {
    "write_bytes",
    "read_bytes",
    "mkdir",
    "is_file",
    "is_dir",
    "exists",
}


def trace_code(code):
    if code.co_filename.endswith("pathlib.py"):
        return code.co_name in FUNCS
    return True


FILES = ("/aiootp/_paths.py", "pathlib.py")


def drop_privileges():
    try:
        os.setgroups([])
        os.setresgid(NOBODY, NOBODY, NOBODY)
        os.setresuid(NOBODY, NOBODY, NOBODY)
    except PermissionError:
        pass
    os.chdir("/")


class World:
    def __init__(self, scratch, initial):
        self.root = Path(tempfile.mkdtemp(dir=scratch))
        self.initial = initial
        self.file = self.root / "salt"
        if initial is not None:
            self.file.write_bytes(SALTS[initial])
            self.file.chmod(0)
        self.history = []  # [op, start, end, result]
        self.now = 0

    def start(self, op):
        self.now += 1
        entry = [op, self.now, None, None]
        self.history.append(entry)
        return entry

    def end(self, entry, result):
        self.now += 1
        entry[2] = self.now
        entry[3] = result

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def content(self, path):
        mode = stat.S_IMODE(os.stat(path).st_mode)
        os.chmod(path, 0o600)
        data = Path(path).read_bytes()
        return mode, data

    # ---- operations

    def named(self, op):
        """
        The file as the operation spells it, a trailing "~" being for a
        path relative to the current directory.
        """
        if op[-1] == "~":
            return op[0], op[1:-1], Path(os.path.relpath(self.file))
        return op[0], op[1:], self.file

    def do(self, op):
        kind, arg, file = self.named(op)
        if kind == "m":
            return P._make_salt_file(file, salt=SALTS[arg])
        if kind == "r":
            return P._read_salt_file(file)
        if kind == "u":
            return P._update_salt_file(file, salt=SALTS[arg])
        if kind == "d":
            return P._delete_salt_file(file)
        if kind == "s":
            path = P.SecureSaltPath(self.root, key=KEY, _admin=arg == "a")
            return path, P._read_salt_file(path)
        raise AssertionError(op)

    async def ado(self, op):
        kind, arg, file = self.named(op)
        if kind == "m":
            return await P._amake_salt_file(file, salt=SALTS[arg])
        if kind == "r":
            return await P._aread_salt_file(file)
        if kind == "u":
            return await P._aupdate_salt_file(file, salt=SALTS[arg])
        if kind == "d":
            return await P._adelete_salt_file(file)
        if kind == "s":
            path = await P.AsyncSecureSaltPath(
                self.root, key=KEY, _admin=arg == "a"
            )
            return path, await P._aread_salt_file(path)
        raise AssertionError(op)

    # ---- oracle

    def judge(self):
        for entry in self.history:
            if entry[2] is None:
                return f"{entry[0]} never returned"
        if self.history and self.history[0][0][0] == "s":
            return self.judge_created()
        return self.judge_register()

    def judge_created(self):
        got = set()
        for op, _, _, result in self.history:
            if result is GONE:
                continue
            if isinstance(result, BaseException):
                return f"requesting a new salt failed: {result!r}"
            got.add(result)
        if not got:
            return None
        if len(got) != 1:
            return f"{len(got)} different salts for one request path"
        path, salt = got.pop()
        mode, data = self.content(path)
        if mode:
            return f"salt file left with mode {mode:o}"
        if data != salt or len(salt) < 32:
            return "the stored salt isn't the one that was returned"
        return None

    def judge_register(self):
        """
        Is there an order of the operations, consistent with real time,
        which a single register explains, including the file at rest?
        """
        if self.file.exists():
            mode, data = self.content(self.file)
            rest = data
            if mode:
                return f"salt file left with mode {mode:o}"
        else:
            rest = None
        start = None if self.initial is None else SALTS[self.initial]
        done = [k for k, e in enumerate(self.history) if e[3] is not GONE]
        gone = [k for k, e in enumerate(self.history) if e[3] is GONE]
        # what was cancelled happened at any time later, or never
        orders = (
            order
            for some in range(len(gone) + 1)
            for extra in itertools.combinations(gone, some)
            for order in itertools.permutations((*done, *extra))
        )
        for order in orders:
            ok = True
            for i, j in itertools.combinations(range(len(order)), 2):
                first, second = self.history[order[i]], self.history[order[j]]
                if second[2] < first[1]:
                    ok = False
                    break
            if not ok:
                continue
            value = start
            for k in order:
                op, _, _, result = self.history[k]
                ok, value = self.step(op, value, result)
                if not ok:
                    break
            if ok and value == rest:
                return None
        return "no order of the operations explains " + repr(
            [(e[0], show(e[3])) for e in self.history]
        ) + f" leaving {show(rest)}"

    @staticmethod
    def step(op, value, result):
        """
        Returns (explained, next value).
        """
        kind, arg = op[0], op[1:].rstrip("~")
        if result is GONE:
            if kind == "m":
                return True, SALTS[arg] if value is None else value
            if value is None or kind == "r":
                return True, value
            return True, SALTS[arg] if kind == "u" else None
        missing = isinstance(result, FileNotFoundError)
        if kind == "m":
            if value is None:
                return result is None, SALTS[arg]
            return isinstance(result, (PermissionError, FileExistsError)), value
        if value is None:
            return missing, None
        if isinstance(result, BaseException):
            return False, value
        if kind == "r":
            return result == value, value
        if kind == "u":
            return True, SALTS[arg]
        if kind == "d":
            return True, None
        raise AssertionError(op)


class GONE:
    """The result of a cancelled operation."""


def show(x):
    if x is GONE:
        return "cancelled"
    if isinstance(x, bytes):
        return x[:2].hex() + f"*{len(x)}"
    return repr(x)


def perform(world, op, note):
    entry = world.start(op)
    note("start", op)
    try:
        result = world.do(op)
    except Exception as e:
        result = e
    world.end(entry, result)
    note("end", op, show(result))


async def aperform(world, op, note):
    entry = world.start(op)
    note("start", op)
    try:
        result = await world.ado(op)
    except Exception as e:
        result = e
    except asyncio.CancelledError:
        world.end(entry, GONE)
        entry[2] = float("inf")
        note("end", op, "cancelled")
        raise
    world.end(entry, result)
    note("end", op, show(result))


def thread_user(world, ops):
    def program(s, tid):
        for op in ops:
            perform(world, op, s.event)

    return program


def loop_user(world, rows):
    def program(s, tid):
        async def one(ops):
            for op in ops:
                await aperform(world, op, s.event)

        async def main(loop):
            await asyncio.gather(*(one(ops) for ops in rows))

        _, _, error = tasks.run(main, patience=10**6)
        if error is not None:
            raise error

    return program


def fresh_guards():
    """
    Abandoned executions must not leave their guards to later ones.
    """
    P._read_salt_file.__globals__["guards"].targets.clear()


def execute_threads(spec):
    scratch, initial, rows = spec

    def execute(devs):
        fresh_guards()
        world = World(scratch, initial)
        try:
            programs = []
            for row in rows:
                if isinstance(row[0], tuple):
                    programs.append(loop_user(world, row))
                else:
                    programs.append(thread_user(world, row))
            s = threads.Sched(
                programs, devs, files=FILES, funcs=trace_code
            )
            s.run()
            bad = None
            if s.verdict is not None:
                bad = f"{s.verdict} after {s.log}"
            else:
                for t, e in enumerate(s.errors):
                    if e is not None:
                        bad = f"thread {t}: {e!r}"
                bad = bad or world.judge()
            return s.trace, s.steps, tuple(s.log), bad, s.diverged
        finally:
            world.close()

    return execute


def execute_tasks(spec):
    scratch, initial, rows = spec

    def execute(devs):
        fresh_guards()
        world = World(scratch, initial)
        try:

            async def one(ops, note):
                for op in ops:
                    await aperform(world, op, note)

            async def main(loop):
                await asyncio.gather(*(one(r, loop.event) for r in rows))

            # a guard that blocks the thread of the event loop would
            # hang for real: give its sleep a limit
            boot.TLS.ctx = Impatient()
            try:
                loop, _, error = tasks.run(main, devs)
            finally:
                boot.TLS.ctx = None
            bad = f"{error!r} after {loop.log}" if error else world.judge()
            return loop.trace, loop.steps, tuple(loop.log), bad, loop.diverged
        finally:
            world.close()

    return execute


def execute_cancelled(spec):
    """
    Tasks, some of which may be cancelled at any point. What they've
    handed to a thread is called off, or (`committed`) already runs & ends
    whenever it likes.
    """
    scratch, initial, (committed, rows) = spec

    def execute(devs):
        fresh_guards()
        world = World(scratch, initial)
        try:

            async def one(ops, note):
                for op in ops:
                    await aperform(world, op, note)

            async def main(loop):
                loop.committed = loop.slow = committed
                users = [loop.create_task(one(r, loop.event)) for r in rows]
                loop.cancellable = users
                out = await asyncio.gather(*users, return_exceptions=True)
                loop.cancellable = None
                loop.quiet = True
                await asyncio.sleep(10**3)
                for e in out:
                    if isinstance(e, Exception):
                        raise e

            boot.TLS.ctx = Impatient()
            try:
                loop, _, error = tasks.run(main, devs)
            finally:
                boot.TLS.ctx = None
            bad = f"{error!r} after {loop.log}" if error else world.judge()
            return loop.trace, loop.steps, tuple(loop.log), bad, loop.diverged
        finally:
            world.close()

    return execute


class Impatient:
    """
    The scheduling context of a thread which runs an event loop alone:
    blocking sleeps in it can never be answered by other tasks.
    """

    tid = 0

    def __init__(self):
        self.slept = 0

    def yield_point(self):
        import sys

        # the event loop's own idling isn't a blocking sleep
        if sys._getframe(1).f_code.co_name == "_run_once":
            self.slept += 1
            if self.slept > 2000:
                raise tasks.Stuck("deadlock: everybody only polls")
            return
        self.slept += 1
        if self.slept > 40:
            raise tasks.Stuck("the event loop's thread is blocked")

    def lock_point(self, lock):
        raise tasks.Stuck("the event loop's thread waits for a lock")


def thread_scenarios(thorough):
    out = []

    def add(initial, rows, bound):
        name = f"{initial}:" + "|".join(map(str, rows))
        out.append((name, initial, rows, bound))

    deep = 2 if thorough else 1
    for a, b in itertools.combinations_with_replacement(
        ("r", "u1", "d"), 2
    ):
        if (a, b) == ("u1", "u1"):
            b = "u2"
        add("0", ((a,), (b,)), 2)
    add(None, (("m1",), ("r",)), 2)
    add(None, (("m1",), ("u2",)), deep)
    add(None, (("m1",), ("d",)), deep)
    add(None, (("m1", "r"), ("r",)), deep)
    for a in ("s", "sa"):
        add(None, ((a,), (a,)), 2)
    # the same file by another name
    for a, b in itertools.product(("r", "u1", "d"), ("r~", "u2~", "d~")):
        add("0", ((a,), (b,)), deep)
    add(None, (("m1",), ("d~",)), deep)
    add(None, (("m1~",), ("u2",)), deep)
    add(None, (("s",), ("s",), ("s",)), deep)
    add("0", (("r",), ("r",), ("u1",)), deep)
    add("0", (("r", "r"), ("u1", "r")), deep)
    add("0", (("u1", "r"), ("u2", "r")), deep)
    add("0", (("r",), ("u1",), ("d",)), deep)
    # threads with event loops
    for a, b in itertools.product(("r", "u1", "d"), ("r", "u2", "d")):
        add("0", ((a,), ((b,),)), deep)
        add("0", ((a,), ((b + "~",),)), deep)
        add("0", (((b,),), (a,)), deep)
        add("0", (((b + "~",),), (a,)), deep)
    add(None, (("m1",), (("u2~",),)), deep)
    add(None, (("m1",), (("d~",),)), deep)
    add(None, (("s",), (("s",),)), deep)
    add("0", (("r",), (("r",), ("u1",))), 1)
    return out


def task_scenarios(thorough):
    out = []

    def add(initial, rows, bound):
        name = f"{initial}:" + "|".join(map(str, rows))
        out.append((name, initial, rows, bound))

    deep = 1 if thorough else 0
    for a, b in itertools.combinations_with_replacement(
        ("r", "u1", "d"), 2
    ):
        if (a, b) == ("u1", "u1"):
            b = "u2"
        add("0", ((a,), (b,)), 2 + deep)
    add(None, (("m1",), ("r",)), 2 + deep)
    add(None, (("m1",), ("u2",)), 2)
    add(None, (("m1",), ("d",)), 2)
    for a in ("s", "sa"):
        add(None, ((a,), (a,)), 2 + deep)
    add(None, (("s",), ("s",), ("s",)), 1 + deep)
    for a, b in itertools.product(("r", "u1", "d"), ("r~", "u2~", "d~")):
        add("0", ((a,), (b,)), 1 + deep)
    add(None, (("m1",), ("d~",)), 1 + deep)
    add(None, (("m1~",), ("u2",)), 1 + deep)
    for trio in itertools.combinations_with_replacement(
        ("r", "u1", "d"), 3
    ):
        add("0", tuple((t,) for t in trio), 1 + deep)
    add("0", (("r", "r"), ("u1", "r")), 1 + deep)
    add("0", (("u1", "r"), ("u2", "r")), 1 + deep)
    return out


def cancel_scenarios(thorough):
    out = []
    deep = 1 if thorough else 0
    for committed in (False, True):
        def add(initial, rows, bound):
            name = f"{committed}:{initial}:" + "|".join(map(str, rows))
            out.append((name, initial, (committed, rows), bound + deep))

        for a in ("r", "u1", "d"):
            add("0", ((a,),), 2)
            for b in ("r", "u2", "d"):
                add("0", ((a,), (b,)), 1)
            add("0", ((a,), ("r", "r")), 1)
        add(None, (("m1",),), 2)
        add(None, (("m1",), ("r",)), 1)
        add(None, (("m1",), ("u2",)), 1)
        add(None, (("s",),), 2)
        add(None, (("s",), ("s",)), 1)
    return out


# ---- failing calls


class Failing:
    """
    The n-th call of the operating system on the scratch directory fails,
    other than for changing the mode.
    """

    root = None
    at = error = None
    calls = ()
    hooked = False

    def arm(self, root, at, error):
        if not self.hooked:
            self.hooked = True
            sys.addaudithook(self.hook)
        self.calls, self.at, self.error = [], at, error
        self.root = str(root)

    def hook(self, event, args):
        if self.root is None or event not in CALLS:
            return
        path = str(args[CALLS[event]])
        if not path.startswith(self.root):
            return
        self.calls.append(event)
        if len(self.calls) - 1 == self.at:
            raise OSError(self.error, os.strerror(self.error), path)


CALLS = {"open": 0, "os.link": 1, "os.rename": 1, "os.remove": 0}
FAILING = Failing()


def fail(job):
    """
    One operation, in both forms, with each of its calls failing: the
    file is whole & locked, & nothing else is left.
    """
    scratch, initial, op = job
    n = 0
    for form, error in itertools.product((0, 1), (errno.ENOSPC, errno.EIO)):
        for at in (None, *range(99)):
            fresh_guards()
            world = World(scratch, initial)
            story = f"{op} form {form}, call {at} fails with {error}"
            try:
                FAILING.arm(world.root, at, error)
                try:
                    result = (
                        tasks.run_plain(world.ado(op)) if form else world.do(op)
                    )
                except OSError as e:
                    result = e
                finally:
                    FAILING.root = None
                if at is not None and at >= len(FAILING.calls):
                    break
                n += 1
                before = None if initial is None else SALTS[initial]
                ok, after = world.step(op, before, None if op[0] != "r" else before)
                rest = mode = None
                if world.file.exists():
                    mode, rest = world.content(world.file)
                if mode:
                    return n, f"{story}: left with mode {mode:o}"
                if isinstance(result, OSError):
                    if at is None:
                        return n, f"{story}: {result!r}"
                    # removing the temporary file may fail after all is done
                    if rest not in (before, after):
                        return n, f"{story}: neither old nor new {show(rest)}"
                elif rest != after or (op[0] == "r" and result != before):
                    return n, f"{story}: {show(result)} leaving {show(rest)}"
                left = set(os.listdir(world.root)) - {"salt"}
                if left and "os.remove" not in FAILING.calls[at:]:
                    return n, f"{story}: left {len(left)} other files"
            finally:
                world.close()
        else:
            return n, f"{op}: too many calls"
    return n, None


def sizes(job):
    """
    Histories of two operations with salts of every size: what's too
    short is refused, & leaves what was there, whole & locked.
    """
    scratch, form, first = job
    n = 0

    def call(world, op, size, i):
        """
        One operation, with salts named by their size & turn.
        """
        name = ("a" if form else "") + dict(m="make", r="read", u="update")[op]
        call = getattr(P, f"_{name}_salt_file")
        kw = {} if op == "r" else dict(salt=bytes([65 + i]) * size)
        try:
            out = call(world.file, **kw)
            return tasks.run_plain(out) if form else out
        except Exception as e:
            return e

    for size, second, other in itertools.product(range(36), "mru", (31, 32, 33)):
        fresh_guards()
        world = World(scratch, None)
        try:
            value = None
            if first == "f":  # a file which was cut short
                value = b"A" * size
                world.file.write_bytes(value)
                world.file.chmod(0)
            for i, (op, count) in enumerate(((first, size), (second, other))):
                if op == "f":
                    continue
                n += 1
                story = f"{first}{size} {second}{other}: {op}"
                result = call(world, op, count, i)
                mode = rest = None
                if world.file.exists():
                    mode, rest = world.content(world.file)
                    world.file.chmod(0)
                if mode:
                    return n, f"{story}: left with mode {mode:o}"
                if op == "r":
                    good = value is not None and len(value) >= 32
                    if good != (result == value and result is not None):
                        return n, f"{story}: gave {show(result)}"
                elif op == "m" and not count and value is None:
                    # a new random one
                    value = rest
                    if result is not None or rest is None or len(rest) != 32:
                        return n, f"{story}: {show(result)} leaving {show(rest)}"
                else:
                    good = count >= 32 and (op == "m") == (value is None)
                    if op == "m" and not count:
                        good = False
                    if good != (result is None):
                        return n, f"{story}: gave {show(result)}"
                    if good:
                        value = bytes([65 + i]) * count
                if rest != value:
                    return n, f"{story}: {show(result)} leaving {show(rest)}"
                if set(os.listdir(world.root)) - {"salt"}:
                    return n, f"{story}: left other files"
        finally:
            world.close()
    return n, None


def all_sizes(check, scratch):
    jobs = [(scratch, form, first) for form in (0, 1) for first in "mruf"]
    for k, (n, problem) in pmap(sizes, jobs, setup=drop_privileges):
        check.part("sizes", operations=n)
        check.count(states=n, transitions=n, traces=n)
        if problem:
            check.violation(
                f"sizes:{jobs[k][1:]}", problem, dict(part="sizes", job=k)
            )


def failures(check, scratch):
    jobs = [(scratch, None, "m1")]
    jobs += [(scratch, "0", op) for op in ("r", "r~", "u1", "u1~", "d", "d~")]
    for k, (n, problem) in pmap(fail, jobs, setup=drop_privileges):
        check.part("failing calls", operations=n)
        check.count(states=n, transitions=n, traces=n)
        if problem:
            check.violation(
                f"failing:{jobs[k][2]}", problem, dict(part="failing", job=k)
            )
    return jobs


def main():
    check = Check("C04")
    check.assumptions = [
        "one process; every file operation is atomic except that writing "
        "is creation/truncation, then data, then close",
        "explored as an unprivileged user so that mode bits matter",
    ]
    scratch = tempfile.mkdtemp(prefix="verif-c04-")
    os.chown(scratch, NOBODY, NOBODY)
    try:
        for part, scen, ex in (
            ("threads", thread_scenarios, execute_threads),
            ("tasks", task_scenarios, execute_tasks),
            ("cancelled", cancel_scenarios, execute_cancelled),
        ):
            explore(check, part, scen(check.thorough), ex, scratch)
        failures(check, scratch)
        all_sizes(check, scratch)
        out = execute_tasks((scratch, "0", (("r",), ("u1",))))([])
        check.sample(repr(out[2]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return check.finish()


def explore(check, part, scenarios, execute_for, scratch):
    jobs = []
    # tasks take turns, or run on until they wait
    for sticky in (False, True)[: 1 + (part != "threads")]:
        for name, initial, rows, bound in scenarios:
            n = WORKERS if bound >= 2 else 1
            for i in range(n):
                spec = (scratch, initial, rows)
                jobs.append((name, spec, bound, i, n, sticky))
    jobs.sort(key=lambda j: -j[2])

    def work(job):
        name, spec, bound, i, n, tasks.STICKY[0] = job
        return threads.explore(execute_for(spec), bound, shard=(i, n))

    failed = set()
    total = threads.Result()
    for k, res in pmap(work, jobs, setup=drop_privileges):
        name, spec, bound, i, n, sticky = jobs[k]
        total.merge(res)
        check.part(f"{part}:{name}", schedules=res.schedules)
        check.parts[f"{part}:{name}"]["bound"] = bound
        if res.violation and name not in failed:
            failed.add(name)
            message, devs = res.violation
            check.violation(
                f"{part}:{name}",
                message,
                dict(part=part, name=name, devs=devs, sticky=sticky),
            )
    check.count(
        states=total.states, transitions=total.steps, traces=total.schedules
    )
    check.part(
        f"{part}:total",
        schedules=total.schedules,
        outcomes=len(total.outcomes),
        diverged=total.diverged,
        unstable_replays=total.unstable,
    )


def replay(data):
    if data["part"] in ("failing", "sizes"):
        return main()
    scen, ex = {
        "threads": (thread_scenarios, execute_threads),
        "tasks": (task_scenarios, execute_tasks),
        "cancelled": (cancel_scenarios, execute_cancelled),
    }[data["part"]]
    scratch = tempfile.mkdtemp(prefix="verif-c04-")
    os.chown(scratch, NOBODY, NOBODY)
    drop_privileges()
    try:
        name, initial, rows, _ = next(
            s for t in (0, 1) for s in scen(t) if s[0] == data["name"]
        )
        execute = ex((scratch, initial, rows))
        execute([])
        devs = [
            (i, tuple(p) if isinstance(p, list) else p)
            for i, p in data["devs"]
        ]
        out = execute(devs)
        print(out[2], "\n", out[3])
        return 1 if out[3] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
