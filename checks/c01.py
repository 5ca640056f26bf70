"""
C01: exclusion, arrival order & progress of guards sharing one state.
"""

import itertools

from mc import boot, tasks, threads
from mc.report import Check
from .guardlib import FILES, Monitor, explore_all

A = boot.load()
from aiootp.asynchs import ConcurrencyGuard  # noqa: E402

POL = ConcurrencyGuard.policies
KINDS = {
    "E": (POL.Exclusive, True, False),
    "N": (POL.NonExclusive, False, False),
    "e": (POL.QueueManually, True, True),
    "n": (POL.NonExclusiveQueueManually, False, True),
}


class World:
    """
    The shared state of one execution: `rounds` gives, per user, the
    kinds of guards it uses one after the other; `order` is the manual
    order of the users' manually queued guards.
    """

    def __init__(self, rounds, order=()):
        self.deques = ConcurrencyGuard.DequePair()
        self.mon = Monitor()
        self.names = {}
        self.users = []
        for u, kinds in enumerate(rounds):
            row = []
            for r, kind in enumerate(kinds):
                policy, exclusive, manual = KINDS[kind]
                deques = self.deques
                if (u + r) % 2:  # another pair of the same deques
                    deques = ConcurrencyGuard.DequePair(
                        queue=deques.queue, observers=deques.observers
                    )
                guard = ConcurrencyGuard(deques, policy=policy())
                name = f"{kind}{u}.{r}"
                self.names[id(guard)] = (name, exclusive)
                row.append((name, guard, exclusive, manual))
            self.users.append(row)
        for u in order:
            self.deques.queue.append(self.users[u][0][1])
        if order:
            # a manual guard was queued behind those appended earlier
            seen = []
            for u in order:
                name, _, exclusive, _ = self.users[u][0]
                self.mon.ahead[name] = tuple(seen)
                seen.append((name, exclusive))

    def arrive(self, name, manual):
        if not manual:
            self.mon.arrive(
                name,
                tuple(self.names[id(g)] for g in list(self.deques.queue)),
            )

    def enter(self, name, guard, exclusive):
        self.mon.enter(name, exclusive)
        if not guard.is_running():
            self.mon.fail(f"{name} is inside but not reported running")

    def final(self):
        mon = self.mon
        for row in self.users:
            for name, guard, *_ in row:
                if name not in mon.entered:
                    mon.fail(f"{name} never ran")
                elif not guard.is_done():
                    mon.fail(f"{name} left but isn't reported done")
        if self.deques.queue or self.deques.observers:
            mon.fail("shared state isn't empty after everybody left")


def thread_user(world, row):
    def program(s, tid):
        for name, guard, exclusive, manual in row:
            world.arrive(name, manual)
            s.event("arrive", name)
            with guard as got:
                world.enter(name, guard, exclusive)
                s.event("in", name)
                if got is not guard:
                    world.mon.fail(f"{name} got another guard")
                s.point(tid, "op", "body")
                s.event("out", name)
                world.mon.leave(name)

    return program


async def task_user(world, row, note):
    import asyncio

    for name, guard, exclusive, manual in row:
        world.arrive(name, manual)
        note("arrive", name)
        async with guard as got:
            world.enter(name, guard, exclusive)
            note("in", name)
            if got is not guard:
                world.mon.fail(f"{name} got another guard")
            await asyncio.sleep(0)
            note("out", name)
            world.mon.leave(name)


def loop_thread(world, rows):
    def program(s, tid):
        import asyncio

        async def main(loop):
            await asyncio.gather(*(task_user(world, r, s.event) for r in rows))

        _, _, error = tasks.run(main, patience=10**6)
        if error is not None:
            raise error

    return program


def execute_threads(spec):
    rounds, order, groups, mode = spec

    def execute(devs):
        world = World(rounds, order)
        programs = []
        for group in groups:
            if len(group) == 1 and group[0] >= 0:
                programs.append(thread_user(world, world.users[group[0]]))
            else:
                rows = [world.users[u] for u in group if u >= 0]
                programs.append(loop_thread(world, rows))
        s = threads.Sched(programs, devs, files=FILES, mode=mode)
        s.run()
        if s.verdict is None:
            for t, e in enumerate(s.errors):
                if e is not None:
                    world.mon.fail(f"thread {t} failed: {e!r}")
            if world.mon.bad is None:
                world.final()
        elif world.mon.bad is None:
            world.mon.fail(f"{s.verdict} after {s.log}")
        return s.trace, s.steps, tuple(s.log), world.mon.bad, s.diverged

    return execute


def execute_tasks(spec):
    rounds, order = spec

    def execute(devs):
        import asyncio

        world = World(rounds, order)

        async def main(loop):
            await asyncio.gather(
                *(task_user(world, r, loop.event) for r in world.users)
            )

        loop, _, error = tasks.run(main, devs, patience=60 + 12 * len(rounds))
        if error is not None:
            world.mon.fail(f"{error!r} after {loop.log}")
        if world.mon.bad is None:
            world.final()
        return (
            loop.trace,
            loop.steps,
            tuple(loop.log),
            world.mon.bad,
            loop.diverged,
        )

    return execute


def multisets(kinds, n):
    return list(itertools.combinations_with_replacement(kinds, n))


def thread_scenarios(thorough):
    out = []
    for ks in itertools.product("EN", repeat=2):
        rounds = tuple((k,) for k in ks)
        out.append(
            (
                "".join(ks),
                (rounds, (), ((0,), (1,)), "opcode"),
                3 if thorough else 2,
            )
        )
    for ks in multisets("EN", 3):
        rounds = tuple((k,) for k in ks)
        out.append(
            (
                "".join(ks),
                (rounds, (), ((0,), (1,), (2,)), "opcode"),
                2 if thorough or ks in (tuple("ENN"), tuple("EEN")) else 1,
            )
        )
    # two rounds each
    for ks in itertools.combinations_with_replacement(
        ("EE", "EN", "NE", "NN"), 2
    ):
        out.append(
            (
                "/".join(ks),
                (ks, (), ((0,), (1,)), "opcode"),
                2 if thorough else 1,
            )
        )
    # manual queuing
    for ks in itertools.product("en", repeat=2):
        for order in itertools.permutations(range(2)):
            out.append(
                (
                    "".join(ks) + str(order),
                    (tuple((k,) for k in ks), order, ((0,), (1,)), "opcode"),
                    2 if thorough else 1,
                )
            )
    for ks in ("een", "enn", "eee"):
        for order in itertools.permutations(range(3)):
            out.append(
                (
                    ks + str(order),
                    (
                        tuple((k,) for k in ks),
                        order,
                        ((0,), (1,), (2,)),
                        "line",
                    ),
                    2 if thorough else 1,
                )
            )
    # threads running event loops together with plain threads (a group
    # with -1 is an event loop)
    for ks in ("EEE", "ENE", "NEN", "EEN"):
        out.append(
            (
                f"{ks[0]}+loop({ks[1:]})",
                (
                    tuple((k,) for k in ks),
                    (),
                    ((0,), (1, 2)),
                    "opcode",
                ),
                2 if thorough else 1,
            )
        )
    for ks in itertools.product("EN", repeat=2):
        out.append(
            (
                f"loop({ks[0]})+loop({ks[1]})",
                (
                    tuple((k,) for k in ks),
                    (),
                    ((0, -1), (1, -1)),
                    "opcode",
                ),
                2,
            )
        )
    # crowds, one schedule each
    for n in (5, 9, 17, 33):
        for ks in ("E", "EN", "NNE", "e"):
            rounds = tuple((ks[i % len(ks)],) for i in range(n))
            order = tuple(reversed(range(n))) if ks == "e" else ()
            groups = tuple((i,) for i in range(n))
            out.append((f"crowd {ks} x {n}", (rounds, order, groups, "line"), 0))
    return out


def task_scenarios(thorough):
    out = []
    for n in (2, 3):
        for ks in itertools.product("EN", repeat=n):
            out.append(
                (
                    "".join(ks),
                    (tuple((k,) for k in ks), ()),
                    (4 if thorough else 3) if n == 2 else 3 if thorough else 2,
                )
            )
    for ks in itertools.combinations_with_replacement(
        ("EE", "EN", "NE", "NN"), 2
    ):
        out.append(("/".join(ks), (ks, ()), 3 if thorough else 2))
    for ks in itertools.product("en", repeat=3):
        for order in itertools.permutations(range(3)):
            out.append(
                (
                    "".join(ks) + str(order),
                    (tuple((k,) for k in ks), order),
                    2 if thorough else 1,
                )
            )
    for ks in ("ENEN", "EEEE", "NNEE", "NENE"):
        out.append(
            (ks, (tuple((k,) for k in ks), ()), 2 if thorough else 1)
        )
    # crowds, one schedule each
    for n in (*range(5, 70), 130, 260):
        for ks in ("E", "EN", "NNE", "NE" + "N" * 7, "e", "en"):
            rounds = tuple((ks[i % len(ks)],) for i in range(n))
            order = ()
            if ks.islower():
                order = tuple(range(0, n, 2)) + tuple(range(1, n, 2))
            out.append((f"crowd {ks} x {n}", (rounds, order), 0))
    return out


def main():
    check = Check("C01")
    check.assumptions = [
        "individual deque operations & bytecodes are atomic, as in "
        "CPython with a global interpreter lock",
        "at most K deviations from the default schedule (K per part)",
    ]
    explore_all(
        check,
        thread_scenarios(check.thorough),
        execute_threads,
        None,
        part="threads",
    )
    explore_all(
        check,
        task_scenarios(check.thorough),
        execute_tasks,
        None,
        part="tasks",
        sticky=(0,),
    )
    check.sample(
        "threads EN: exclusive & non-exclusive user, bytecode granularity"
    )
    check.sample(repr(execute_tasks(((("E",), ("N",)), ()))([])[2]))
    return check.finish()


def replay(data):
    scen = {
        "threads": (thread_scenarios, execute_threads),
        "tasks": (task_scenarios, execute_tasks),
    }[data["part"]]
    spec = next(
        s for t in (0, 1) for n, s, _ in scen[0](t) if n == data["name"]
    )
    devs = [(i, tuple(p) if isinstance(p, list) else p) for i, p in data["devs"]]
    out = scen[1](spec)(devs)
    print(out[2], "\n", out[3])
    return 1 if out[3] else 0
