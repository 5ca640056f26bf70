"""
C03: the per-target guard manager.
"""

import asyncio
import itertools

from mc import boot, tasks, threads
from mc.report import Check
from .guardlib import FILES, Monitor, explore_all

A = boot.load()
from aiootp.asynchs import MultiConcurrencyGaurd  # noqa: E402
from aiootp.asynchs.guards.manager import DefaultDictOfStates  # noqa: E402


# different targets, some of which have the same hash or text
TARGETS = dict(
    i=-1, j=-2, k=2**61 - 3, l="-1", m=1, o="1", p=b"1", q=(1,), r=("1",),
    s=None, t="None", u="", v=b"", w=(), x=frozenset(), y=0, z="1 ",
)


class World:
    """
    A user is a string of uses like "Ea" (exclusive on a) or "Nb"; a use
    "Ea*" stays inside until all users of other targets are done. With an
    "@" in any of them, the manager is given its table.
    """

    def __init__(self, users):
        if "@" in "".join(users):
            self.table = DefaultDictOfStates()
            self.manager = MultiConcurrencyGaurd(targets=self.table)
        else:
            self.manager = MultiConcurrencyGaurd()
            self.table = self.manager.targets
        self.mon = Monitor()
        self.active = {}
        self.names = {}
        self.left = {}
        self.users = []
        for u, text in enumerate(users):
            row = []
            for r, use in enumerate(text.split()):
                kind, target = use[0], TARGETS.get(use[1], use[1])
                make = (
                    self.manager.guard
                    if kind == "E"
                    else self.manager.monitor
                )
                guard = make(target)
                name = f"{use}.{u}.{r}"
                self.names[id(guard)] = (name, kind == "E")
                row.append((name, guard, kind == "E", target, "*" in use))
                self.left[target] = self.left.get(target, 0) + 1
            self.users.append(row)

    def arrive(self, name, target):
        self.active[target] = self.active.get(target, 0) + 1
        ahead = []
        table = self.table
        if target in table:
            for g in list(table[target].deques.queue):
                if id(g) in self.names:
                    ahead.append(self.names[id(g)])
        self.mon.arrive(name, tuple(ahead))

    def enter(self, name, guard, exclusive, target):
        self.mon.enter(name, exclusive, target)
        if not guard.is_running():
            self.mon.fail(f"{name} is inside but not reported running")
        if target not in self.table:
            self.mon.fail(f"{name} runs but its target has no state")

    def gone(self, name, target):
        self.active[target] -= 1
        self.left[target] -= 1
        if not self.active[target] and target in self.table:
            self.mon.fail(f"{target!r} keeps its state though nobody uses it")

    def others_done(self, target):
        return all(n == 0 for t, n in self.left.items() if t != target)

    def final(self):
        for row in self.users:
            for name, guard, *_ in row:
                if name not in self.mon.entered:
                    self.mon.fail(f"{name} never ran")
        if self.table:
            self.mon.fail("the manager holds state for unused targets")


def thread_user(world, row):
    def program(s, tid):
        for name, guard, exclusive, target, hold in row:
            world.arrive(name, target)
            s.event("arrive", name)
            with guard:
                world.enter(name, guard, exclusive, target)
                s.event("in", name)
                s.point(tid, "op", "body")
                while hold and not world.others_done(target):
                    s.point(tid, "yield", "hold")
                s.event("out", name)
                world.mon.leave(name)
            world.gone(name, target)
            s.event("gone", name)

    return program


async def task_user(world, row, note):
    for name, guard, exclusive, target, hold in row:
        world.arrive(name, target)
        note("arrive", name)
        async with guard:
            world.enter(name, guard, exclusive, target)
            note("in", name)
            await asyncio.sleep(0)
            while hold and not world.others_done(target):
                await asyncio.sleep(0.001)
            note("out", name)
            world.mon.leave(name)
        world.gone(name, target)
        note("gone", name)


def loop_thread(world, rows):
    def program(s, tid):
        async def main(loop):
            await asyncio.gather(*(task_user(world, r, s.event) for r in rows))

        _, _, error = tasks.run(main, patience=10**6)
        if error is not None:
            raise error

    return program


def execute_threads(spec):
    users, groups = spec

    def execute(devs):
        world = World(users)
        programs = []
        for group in groups:
            if len(group) == 1:
                programs.append(thread_user(world, world.users[group[0]]))
            else:
                rows = [world.users[u] for u in group if u >= 0]
                programs.append(loop_thread(world, rows))
        s = threads.Sched(programs, devs, files=FILES)
        s.run()
        if s.verdict is None:
            for t, e in enumerate(s.errors):
                if e is not None:
                    world.mon.fail(f"thread {t} failed: {e!r}")
            if world.mon.bad is None:
                world.final()
        else:
            world.mon.fail(f"{s.verdict} after {s.log}")
        return s.trace, s.steps, tuple(s.log), world.mon.bad, s.diverged

    return execute


def execute_tasks(spec):
    def execute(devs):
        world = World(spec)

        async def main(loop):
            await asyncio.gather(
                *(task_user(world, r, loop.event) for r in world.users)
            )

        loop, _, error = tasks.run(main, devs, patience=60 + 12 * len(spec))
        if error is not None:
            world.mon.fail(f"{error!r} after {loop.log}")
        if world.mon.bad is None:
            world.final()
        return (
            loop.trace,
            loop.steps,
            tuple(loop.log),
            world.mon.bad,
            loop.diverged,
        )

    return execute


def thread_scenarios(thorough):
    out = []
    each = lambda n: tuple((i,) for i in range(n))  # noqa: E731

    def add(users, groups, bound):
        out.append((f"{'|'.join(users)}@{groups}", (users, groups), bound))

    for ks in itertools.product("EN", repeat=2):
        add(tuple(k + "a" for k in ks), each(2), 3 if thorough else 2)
    for ks in ("EEE", "EEN", "ENN", "NNE"):
        add(tuple(k + "a" for k in ks), each(3), 2 if thorough else 1)
    for users in (
        ("Ea Ea", "Ea Na"),
        ("Na Ea", "Na Na"),
        ("Ea Eb", "Eb Ea"),
        ("Na Ea", "Ea Nb"),
    ):
        add(users, each(2), 2 if thorough else 1)
    for users in (
        ("Ea*", "Eb"),
        ("Ea*", "Nb"),
        ("Na*", "Eb"),
        ("Ea*", "Eb Nb"),
    ):
        add(users, each(2), 2 if thorough else 1)
    add(("Ea*", "Eb", "Nb"), each(3), 1)
    for ks in ("EEE", "NEN", "ENE"):
        add(
            tuple(k + "a" for k in ks),
            ((0,), (1, 2)),
            2 if thorough else 1,
        )
    for ks in itertools.product("EN", repeat=2):
        add(tuple(k + "a" for k in ks), ((0, -1), (1, -1)), 2 if thorough else 1)
    # many users, one schedule each
    for n in (5, 9, 17, *((33,) if thorough else ())):
        for kinds, targets in (("E", "a"), ("ENN", "a"), ("EN", "ab"), ("E", "abcde")):
            users = tuple(
                kinds[i % len(kinds)] + targets[i // 2 % len(targets)] for i in range(n)
            )
            name = f"crowd {kinds} of {targets} x {n}"
            out.append((name, (users, each(n)), 0))
    return out


def task_scenarios(thorough):
    out = []

    def add(users, bound, name=None):
        out.append((name or "|".join(users), users, bound))

    for n in (2, 3):
        for ks in itertools.product("EN", repeat=n):
            bound = 3 if n == 2 else 2
            add(tuple(k + "a" for k in ks), bound + (1 if thorough else 0))
    for users in itertools.combinations_with_replacement(
        ("Ea Ea", "Ea Na", "Na Ea", "Na Na", "Ea Eb", "Eb Na"), 2
    ):
        add(users, 3 if thorough else 2)
    for users in (
        ("Ea*", "Eb"),
        ("Ea*", "Nb"),
        ("Na*", "Eb"),
        ("Ea*", "Eb Nb"),
        ("Ea*", "Eb", "Nb"),
        ("Na*", "Na*", "Eb"),
        ("Ea@", "Na", "Ea"),
        ("Na@", "Ea Na"),
    ):
        add(users, 3 if thorough else 2)
    for x, y in itertools.permutations(TARGETS, 2):
        add((f"E{x}*", f"E{y} N{y}"), 1 if thorough else 0, f"targets {x}{y}")
    # one schedule each
    for n in (*range(4, 70), 130, 260):
        many = [chr(0x100 + i) for i in range(n)]
        add(("Ea*", *("E" + x for x in many)), 0, f"crowd E* x {n}")
        add(("Na*", *("N" + x for x in many)), 0, f"crowd N* x {n}")
        add(tuple("EN"[i % 2] + "a" for i in range(n)), 0, f"crowd EN x {n}")
        users = tuple("ENN"[i % 3] + many[i % 4] for i in range(n))
        add(users, 0, f"crowd ENN x {n}")
    return out


def main():
    check = Check("C03")
    check.assumptions = [
        "bytecodes & single deque/dict operations are atomic (CPython "
        "with a global interpreter lock)",
    ]
    explore_all(
        check,
        thread_scenarios(check.thorough),
        execute_threads,
        None,
        part="threads",
    )
    explore_all(
        check,
        task_scenarios(check.thorough),
        execute_tasks,
        None,
        part="tasks",
        sticky=(0,),
    )
    check.sample(f"tasks Ea|Na: {execute_tasks(('Ea', 'Na'))([])[2]!r}")
    return check.finish()


def replay(data):
    scen = {
        "threads": (thread_scenarios, execute_threads),
        "tasks": (task_scenarios, execute_tasks),
    }[data["part"]]
    spec = next(
        s for t in (0, 1) for n, s, _ in scen[0](t) if n == data["name"]
    )
    devs = [
        (i, tuple(p) if isinstance(p, list) else p) for i, p in data["devs"]
    ]
    ex = scen[1](spec)
    ex([])
    out = ex(devs)
    print(out[2], "\n", out[3])
    return 1 if out[3] else 0
