"""
C02: guards recover from failing, cancelled, interrupted & misused users.
"""

import asyncio
import itertools

from mc import boot, tasks, threads
from mc.report import Check
from .guardlib import FILES, Boom, explore_all

A = boot.load()
from aiootp.asynchs import ConcurrencyGuard, MultiConcurrencyGaurd  # noqa

POL = ConcurrencyGuard.policies


class Interrupt(BaseException):
    pass


class World:
    """
    Users are strings: kind E/N followed by a behaviour:
      .  well behaved
      !  the body raises an ordinary exception
      ^  the body raises a BaseException
      2  uses its guard object twice in a row
      =  shares its guard object with the other `=` users
      ~  its first wait is interrupted (threads only)
    """

    def __init__(self, users, managed):
        self.managed = managed
        self.bad = None
        self.inside = {}
        self.entered = []
        self.ahead = {}
        self.names = {}
        self.bodies = {}
        self.outcome = {}
        if managed:
            self.manager = MultiConcurrencyGaurd()
        else:
            self.deques = ConcurrencyGuard.DequePair()
        shared = {}
        self.users = []
        for u, text in enumerate(users):
            kind, how = text
            if how == "=":
                if kind not in shared:
                    shared[kind] = self.new_guard(kind)
                guard = shared[kind]
            else:
                guard = self.new_guard(kind)
            name = f"{text}{u}"
            if how != "=":
                self.names[id(guard)] = name
            self.users.append((name, kind, how, guard))

    def new_guard(self, kind):
        if self.managed:
            f = self.manager.guard if kind == "E" else self.manager.monitor
            return f("target")
        policy = POL.Exclusive if kind == "E" else POL.NonExclusive
        return ConcurrencyGuard(self.deques, policy=policy())

    def fail(self, message):
        if self.bad is None:
            self.bad = message

    def queue(self):
        if not self.managed:
            return list(self.deques.queue)
        if "target" not in self.manager.targets:
            return []
        return list(self.manager.targets["target"].deques.queue)

    def arrive(self, name):
        self.ahead[name] = [
            self.names[id(g)] for g in self.queue() if id(g) in self.names
        ]

    def enter(self, name, kind, guard):
        for other, okind in self.inside.items():
            if "E" in (kind, okind):
                self.fail(f"{name} runs while {other} runs")
        self.bodies[id(guard)] = self.bodies.get(id(guard), 0) + 1
        if self.bodies[id(guard)] > 1:
            self.fail(f"{name}: a guard object was entered twice")
        self.inside[name] = kind
        self.entered.append(name)

    def leave(self, name):
        self.inside.pop(name)

    def judge(self, name, how, error, cancelled=False):
        """
        `error` is what the user's with statement raised.
        """
        self.outcome[name] = type(error).__name__
        if cancelled:
            return
        if how == "!" and not isinstance(error, Boom):
            self.fail(f"{name}: body's exception became {error!r}")
        elif how == "^" and not isinstance(error, Interrupt):
            self.fail(f"{name}: body's exception became {error!r}")
        elif how in ".~2" and error is not None:
            if not (how == "~" and isinstance(error, Interrupt)):
                self.fail(f"{name} failed with {error!r}")
        elif how == "=" and isinstance(error, (Boom, Interrupt)):
            self.fail(f"{name} failed with {error!r}")

    def second_use(self, name, error, entered):
        if entered or error is None:
            self.fail(f"{name}: second use of a guard wasn't refused")
        elif not isinstance(error, Exception):
            self.fail(f"{name}: second use ended with {error!r}")

    def final(self):
        order = {n: i for i, n in enumerate(self.entered)}
        for name, ahead in self.ahead.items():
            for other in ahead:
                if "E" not in (name[0], other[0]):
                    continue
                if name in order and order.get(other, -1) > order[name]:
                    self.fail(f"{name} ran before {other}, queued earlier")
        for name, kind, how, guard in self.users:
            if how in ".!^2" and name not in self.entered:
                if self.outcome.get(name) != "CancelledError":
                    self.fail(f"{name} never ran")
        if self.managed:
            if self.manager.targets:
                self.fail(
                    "the manager still holds state after everybody left"
                )
        elif self.deques.queue or self.deques.observers:
            self.fail(
                "shared state isn't empty after everybody left: "
                f"{len(self.deques.queue)} queued, "
                f"{len(self.deques.observers)} observing"
            )


# ------------------------------------------------------------- threads


def thread_user(world, user):
    name, kind, how, guard = user

    def program(s, tid):
        def use():
            with guard:
                world.enter(name, kind, guard)
                s.event("in", name)
                try:
                    s.point(tid, "op", "body")
                    if how == "!":
                        raise Boom(name)
                    if how == "^":
                        raise Interrupt(name)
                finally:
                    s.event("out", name)
                    world.leave(name)

        error = None
        world.arrive(name)
        s.event("arrive", name)
        if how == "~":
            ctx = boot.TLS.ctx
            boot.TLS.ctx = InterruptingCtx(ctx)
        try:
            use()
        except threads.Abort:
            raise
        except BaseException as e:
            error = e
        world.judge(name, how, error)
        s.event("done", name, type(error).__name__)
        if how == "2":
            before = len(world.entered)
            error = None
            try:
                with guard:
                    world.entered.append(name)
            except threads.Abort:
                raise
            except BaseException as e:
                error = e
            world.second_use(name, error, len(world.entered) > before and world.entered[-1] == name)

    return program


class InterruptingCtx:
    """
    Raises out of the first sleep.
    """

    def __init__(self, ctx):
        self.ctx = ctx
        self.tid = ctx.tid
        self.fired = False

    def yield_point(self):
        self.ctx.yield_point()
        if not self.fired:
            self.fired = True
            raise Interrupt("while waiting")

    def lock_point(self, lock):
        self.ctx.lock_point(lock)


def execute_threads(spec):
    users, managed, mode = spec

    def execute(devs):
        world = World(users, managed)
        s = threads.Sched(
            [thread_user(world, u) for u in world.users],
            devs,
            files=FILES,
            mode=mode,
        )
        s.run()
        if s.verdict is not None:
            world.fail(f"{s.verdict} after {s.log}")
        else:
            for t, e in enumerate(s.errors):
                if e is not None:
                    world.fail(f"thread {t}: {e!r}")
            if world.bad is None:
                world.final()
        return s.trace, s.steps, tuple(s.log), world.bad, s.diverged

    return execute


# --------------------------------------------------------------- tasks


def execute_tasks(spec):
    users, managed, cancels = spec

    def execute(devs):
        world = World(users, managed)

        async def use(name, kind, how, guard, note):
            async with guard:
                world.enter(name, kind, guard)
                note("in", name)
                try:
                    await asyncio.sleep(0)
                    if how == "!":
                        raise Boom(name)
                    if how == "^":
                        raise Interrupt(name)
                finally:
                    note("out", name)
                    world.leave(name)

        async def user(loop, k):
            name, kind, how, guard = world.users[k]
            error = None
            try:
                world.arrive(name)
                loop.event("arrive", name)
                await use(name, kind, how, guard, loop.event)
            except asyncio.CancelledError as e:
                error = e
            except BaseException as e:
                error = e
            cancelled = isinstance(error, asyncio.CancelledError)
            if cancelled and k not in loop.cancelled:
                world.fail(f"{name} was cancelled by nobody")
            if isinstance(error, GeneratorExit):
                raise error
            if k in loop.cancelled and isinstance(error, Exception):
                if not isinstance(error, Boom) and how not in "=":
                    world.fail(f"{name}: cancellation became {error!r}")
            world.judge(name, how, error, cancelled or k in loop.cancelled)
            loop.event("done", name, type(error).__name__)
            if how == "2" and not cancelled:
                before = world.bodies.get(id(guard))
                error = None
                try:
                    async with guard:
                        world.fail(f"{name}: second use was allowed")
                except asyncio.CancelledError:
                    if k not in loop.cancelled:
                        raise
                    return
                except BaseException as e:
                    error = e
                world.second_use(name, error, False)

        async def main(loop):
            jobs = [
                loop.create_task(user(loop, k))
                for k in range(len(world.users))
            ]
            loop.cancellable = [jobs[k] for k in cancels]
            # cancellation indices refer to users
            if tuple(cancels) != tuple(range(len(cancels))):
                raise AssertionError("cancel a prefix of the users")
            await asyncio.gather(*jobs, return_exceptions=True)
            loop.cancellable = None
            for k in loop.cancelled:
                # a task may be cancelled before its first step
                world.outcome.setdefault(
                    world.users[k][0], "CancelledError"
                )
            # somebody who comes later must still get a turn
            probe = world.new_guard("E")
            async with probe:
                if not probe.is_running():
                    world.fail("the later user isn't running")
            probe = world.new_guard("N")
            async with probe:
                pass
            loop.event("probe")

        loop, _, error = tasks.run(main, devs, patience=60 + 12 * len(users))
        if error is not None:
            world.fail(f"{error!r} after {loop.log}")
        if world.bad is None:
            world.final()
        return (
            loop.trace,
            loop.steps,
            tuple(loop.log),
            world.bad,
            loop.diverged,
        )

    return execute


def thread_scenarios(thorough):
    out = []

    def add(users, bound, mode="opcode"):
        for managed in (False, True):
            out.append(
                (
                    f"{'managed' if managed else 'raw'}:{','.join(users)}",
                    (tuple(users), managed, mode),
                    bound,
                )
            )

    for kinds in itertools.product("EN", repeat=2):
        for how in ("!.", "!!", "^.", "2.", "22"):
            add([k + h for k, h in zip(kinds, how)], 2 if thorough else 1)
    for k in "EN":
        for other in "EN":
            add([k + "=", k + "=", other + "."], 2 if thorough else 1)
        add([k + "=", k + "="], 2)
        for other in "EN":
            add([k + "~", other + "."], 2)
    add(["E~", "E.", "E."], 2 if thorough else 1)
    add(["N~", "E.", "N."], 2 if thorough else 1)
    add(["E~", "N.", "E~"], 2 if thorough else 1)
    return out


def task_scenarios(thorough):
    out = []

    def add(users, cancels, bound):
        for managed in (False, True):
            out.append(
                (
                    f"{'managed' if managed else 'raw'}:{','.join(users)}"
                    f":cancel{cancels}",
                    (tuple(users), managed, tuple(range(cancels))),
                    bound,
                )
            )

    def crowd(pattern, n, cancels, bound):
        users = tuple(itertools.islice(itertools.cycle(pattern.split()), n))
        for managed in (False, True):
            name = f"crowd {'managed' if managed else 'raw'}:{n}:{pattern}:cancel{cancels}"
            out.append((name, (users, managed, tuple(range(cancels))), bound))

    for n in (2, 3):
        for kinds in itertools.product("EN", repeat=n):
            users = [k + "." for k in kinds]
            bound = 3 if n == 2 else 2
            add(users, n, bound + 1 if thorough else bound)
    for kinds in itertools.product("EN", repeat=2):
        for how in ("!.", "!!", "2.", "22"):
            users = [k + h for k, h in zip(kinds, how)]
            add(users, 2, 3 if thorough else 2)
    for k in "EN":
        for other in "EN":
            add([k + "=", k + "=", other + "."], 0, 3 if thorough else 2)
            add([k + "=", k + "=", other + "."], 2, 2)
    # many users, failing in turns, & any one of them cancelled anytime
    for n in (5, 9, 14) if thorough else (5, 9):
        for pattern in ("E.", "N.", "E. N. N.", "N! E! N.", "E! E. N! N2"):
            crowd(pattern, n, n, 1)
    for n in (33, 65, 130, *((260,) if thorough else ())):
        for pattern in ("E!", "N!", "E! N!", "N! N! E.", "E2 N. N! E!", "N2 N^"):
            crowd(pattern, n, 0, 0)
    return out


# ---- every kind of exception


def kinds():
    """
    All exceptions Python & the library have, constructed anyhow.
    """
    seen, left = [], [BaseException]
    while left:
        cls = left.pop()
        left += cls.__subclasses__()
        if cls in seen or cls.__module__.split(".")[0] not in (
            "builtins", "asyncio", "aiootp", "concurrent", "json",
        ):
            continue
        seen.append(cls)
    for cls in sorted(seen, key=lambda c: (c.__module__, c.__qualname__)):
        try:
            yield cls.__new__(cls, "x", "y")
        except Exception:
            try:
                yield cls.__new__(cls)
            except Exception:
                pass


def raised(how, error):
    """
    What comes out of a guarded block which raises `error`.
    """
    kind, managed, form = how
    world = World((kind + ".", "E."), managed)
    out = []

    def sync(guard, error):
        try:
            with guard:
                if error is not None:
                    raise error
        except BaseException as e:
            out.append(e)

    async def asynchronous(guard, error):
        try:
            async with guard:
                if error is not None:
                    raise error
        except BaseException as e:
            out.append(e)

    def step(coro):
        # without an event loop: nothing else may be waited for
        try:
            for _ in range(50):
                coro.send(None)
        except StopIteration:
            return True
        coro.close()
        return False

    for (name, _, _, guard), e in zip(world.users, (error, None)):
        if form:
            if not step(asynchronous(guard, e)):
                return f"{how} {error!r}: the next user waits"
        else:
            if world.managed:
                left = guard._refs.manager.targets
            else:
                left = guard.queue or guard.observers
            if left:
                return f"{how} {error!r}: left {left}"
            sync(guard, e)
    if len(out) != 1 or out[0] is not error:
        return f"{how} {error!r}: what came out is {out}"
    return None


def exceptions(check):
    n = 0
    for how in itertools.product("EN", (False, True), (0, 1)):
        bad = 0
        for error in kinds():
            n += 1
            problem = raised(how, error)
            if problem and not bad:
                bad = 1
                check.violation(
                    "exceptions:" + "".join(map(str, how)),
                    problem,
                    dict(part="exceptions"),
                )
    check.part("exceptions", raised=n)
    check.count(states=n, transitions=n, traces=n)


def main():
    check = Check("C02")
    check.assumptions = [
        "bytecodes & single deque operations are atomic (CPython with a "
        "global interpreter lock)",
        "faults: exceptions in bodies, reuse of guard objects, "
        "interrupted waits & cancellation at any suspension point, each "
        "cancellation counting as one deviation",
    ]
    explore_all(
        check,
        thread_scenarios(check.thorough),
        execute_threads,
        None,
        part="threads",
    )
    explore_all(
        check,
        task_scenarios(check.thorough),
        execute_tasks,
        None,
        part="tasks",
        sticky=(0,),
    )
    exceptions(check)
    spec = (("E.", "N."), False, (0, 1))
    out = execute_tasks(spec)([(2, ("c", 0))])
    check.sample(f"tasks E.,N. cancel first at decision 2: {out[2]!r}")
    return check.finish()


def replay(data):
    if data["part"] == "exceptions":
        return main()
    scen = {
        "threads": (thread_scenarios, execute_threads),
        "tasks": (task_scenarios, execute_tasks),
    }[data["part"]]
    spec = next(
        s for t in (0, 1) for n, s, _ in scen[0](t) if n == data["name"]
    )
    devs = [
        (i, tuple(p) if isinstance(p, list) else p) for i, p in data["devs"]
    ]
    ex = scen[1](spec)
    ex([])
    out = ex(devs)
    print(out[2], "\n", out[3])
    return 1 if out[3] else 0
