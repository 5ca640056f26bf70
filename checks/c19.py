"""
C19: generated identifiers are unique & ordered by time.
"""

import asyncio
import itertools

from mc import boot, tasks, threads
from mc.report import Check, pmap
from .guardlib import explore_all

A = boot.load()
CTL = boot.CTL
FILES = ("/aiootp/randoms/ids/",)
GUID = A.GUID
RawGUID = A.randoms.ids.raw_guid.RawGUID
START = 1_700_000_000_000_000_000


class Bad(Exception):
    pass


class Clocks:
    """
    The readings of the nanosecond clock.
    """

    def __init__(self, kind):
        self.kind = kind
        self.reads = 0

    def __call__(self):
        n = self.reads
        self.reads += 1
        return START + dict(
            frozen=0,
            steps=n * 1000,  # every reading is a new time
            slow=n // 3 * 1000,
            back=(n % 2) * 1000,  # set back over & over
        )[self.kind]


def generator(kind, size, node=b"\x00"):
    if kind == "raw":
        return RawGUID(node_id=node, config_id=size)
    return GUID(node_id=node, config_id=size)


def freeze(clock):
    CTL.time_ns = clock
    CTL.urandom = lambda size: b"\x5c" * size


def earlier(gen, n, clock):
    """
    Moves the counter on, at an earlier time.
    """
    CTL.time_ns = lambda: START - 5000
    for _ in range(n):
        gen.new()
    CTL.time_ns = clock


def judge(gen, names, clock):
    if len(set(names)) != len(names):
        return f"{len(names)} requests gave {len(set(names))} identifiers"
    got = [gen.read(n) for n in names]
    if len({g.sort_key for g in got}) != len(got):
        return "decoded identifiers are equal"
    return None


# ---- schedules --------------------------------------------------------


def execute_threads(spec):
    kind, size, clock, counts, before = spec

    def execute(devs):
        clk = Clocks(clock)
        freeze(clk)
        gen = generator(kind, size)
        earlier(gen, before, clk)
        names = []
        bad = []

        def user(n):
            def program(s, tid):
                for _ in range(n):
                    name = gen.new()
                    names.append(name)
                    s.event("got", name[-1])

            return program

        s = threads.Sched([user(n) for n in counts], devs, files=FILES)
        s.run()
        if s.verdict is not None:
            bad.append(s.verdict)
        bad += [repr(e) for e in s.errors if e is not None]
        problem = judge(gen, names, clock)
        if problem:
            bad.append(problem)
        CTL.time_ns = CTL.urandom = None
        return (
            s.trace,
            s.steps,
            tuple(s.log),
            f"{spec}: {bad[0]}" if bad else None,
            s.diverged,
        )

    return execute


def execute_tasks(spec):
    kind, size, clock, counts, before = spec

    def execute(devs):
        clk = Clocks(clock)
        freeze(clk)
        gen = generator(kind, size)
        earlier(gen, before, clk)
        names = []

        async def main(loop):
            async def user(u, n):
                for i in range(n):
                    names.append(
                        await gen.anew() if (u + i) % 3 < 2 else gen.new()
                    )
                    loop.event(u, i)

            await asyncio.gather(*(user(u, n) for u, n in enumerate(counts)))

        loop, _, error = tasks.run(main, devs)
        problem = repr(error) if error else judge(gen, names, clock)
        CTL.time_ns = CTL.urandom = None
        return (
            loop.trace,
            loop.steps,
            tuple(loop.log),
            f"{spec}: {problem}" if problem else None,
            loop.diverged,
        )

    return execute


def scenarios(thorough, what):
    out = []
    more = bool(thorough)
    if what == "threads":
        for kind, size in (("raw", 16), ("guid", 16), ("raw", 12)):
            for clock in ("frozen", "steps", "back"):
                for counts, bound in (((1, 1), 3), ((2, 1), 2), ((1, 1, 1), 2)):
                    if clock != "frozen" and counts == (1, 1, 1):
                        bound = 1
                    if kind == "guid":
                        bound -= 1
                    out.append((kind, size, clock, counts, 0, bound + more))
        # the counter starts over between the two
        for before in (254, 255, 256):
            out.append(("raw", 16, "frozen", (1, 1), before, 2 + more))
    else:
        for kind, size in (("raw", 16), ("guid", 12), ("guid", 32)):
            for clock in ("frozen", "slow", "back"):
                for counts in ((1, 1), (2, 1), (2, 2), (1, 1, 1), (2, 2, 1)):
                    out.append((kind, size, clock, counts, 0, 3 + more))
    # many users, no more of them than identifiers in one instant
    crowds = ((1, 9), (1, 33), (7, 33)) if what == "threads" else ((1, 9), (1, 250), (6, 40))
    for kind, size in (("raw", 16), ("guid", 16), ("raw", 12), ("guid", 32)):
        for clock in ("frozen", "slow", "back"):
            for count, users in crowds:
                out.append((kind, size, clock, (count,) * users, 0, 0))
    return [
        ("crowd " * (len(o[3]) > 3) + repr(o[:5]), o[:5], o[5]) for o in out
    ]


# ---- sequences --------------------------------------------------------


async def rounds(kind, size, mode):
    """
    A whole counter range per instant, many instants in a row: every
    identifier is new.
    """
    n = 0
    now = [START]
    CTL.time_ns = lambda: now[0]
    CTL.urandom = lambda size: bytes(size)
    gen = generator(kind, size)
    seen = set()
    moves = dict(same=(0,), on=(1000,), mixed=(1000, 0, 3, 0, 0, 1 << 40))[mode]
    left = 256
    for step in range(256 * 6):
        move = moves[step % len(moves)] if left else 1000
        if move:
            now[0] += move
            left = 256
        name = gen.new() if step % 2 else await gen.anew()
        left -= 1
        n += 1
        if name in seen:
            raise Bad(f"{kind} {size} {mode}: identifier {step} isn't new")
        seen.add(name)
    CTL.time_ns = CTL.urandom = None
    return n, n


async def nodes(kind, size):
    """
    All node names at the same instant, with the same counters & random
    parts, through the same key.
    """
    n = 0
    freeze(Clocks("frozen"))
    seen = {}
    for b in range(256):
        gen = generator(kind, size, bytes([b]))
        for i in range(4):
            n += 1
            name = gen.new() if i % 2 else await gen.anew()
            if name in seen:
                raise Bad(f"{kind} {size}: nodes {b} & {seen[name]} collide")
            seen[name] = b
    for wrong in (b"", b"\x00\x00"):
        try:
            generator(kind, size, wrong)
        except Exception:
            continue
        raise Bad(f"node name {wrong!r} accepted")
    CTL.time_ns = CTL.urandom = None
    return n, n


async def order(kind, size, depth):
    """
    Every history of requests, from two nodes, over steps of the clock of
    various sizes, with different random parts: the decoded forms sort by
    the times of creation.
    """
    n = histories = 0
    epoch = A.asynchs.Clock("nanoseconds")._epoch
    steps = (0, 1, 255, 1 << 16, 1 << 55)
    tokens = (b"\xff", b"\x00")
    for path in itertools.product(
        itertools.product(steps, (0, 1), tokens), repeat=depth
    ):
        histories += 1
        now = [epoch + 255]
        CTL.time_ns = lambda: now[0]
        gens = [generator(kind, size, b"\x09"), generator(kind, size, b"\x02")]
        got, names = [], []
        for i, (step, who, token) in enumerate(path):
            now[0] += step
            CTL.urandom = lambda size: token * size
            name = gens[who].new()
            names.append(name)
            got.append((now[0] - epoch, gens[1 - who].read(name)))
            n += 1
        for (t, a), (u, b) in itertools.combinations(got, 2):
            if t < u and not (a < b and b > a and a.sort_key < b.sort_key):
                raise Bad(f"{kind} {size} {path}: the earlier sorts later")
            if t < u and (a == b or b < a):
                raise Bad(f"{kind} {size} {path}: inconsistent comparison")
        for name, (t, a) in zip(names, got):
            same = gens[0].read(name)
            if a < same or a > same or same < a or same > a or a != same:
                raise Bad(f"{kind} {size} {path}: unequal to itself")
        ranked = sorted(range(depth), key=lambda i: got[i][1])
        times = [got[i][0] for i in ranked]
        if times != sorted(times):
            raise Bad(f"{kind} {size} {path}: sorted as {times}")
        by_key = sorted(got, key=lambda g: g[1].sort_key)
        if [g[0] for g in by_key] != sorted(times):
            raise Bad(f"{kind} {size} {path}: sorting keys are out of order")
        if [int.from_bytes(g[1].timestamp, "big") for g in got] != [
            g[0] for g in got
        ]:
            raise Bad(f"{kind} {size} {path}: wrong times")
    CTL.time_ns = CTL.urandom = None
    return n, histories


SECTIONS = dict(rounds=rounds, nodes=nodes, order=order)


def jobs_for(thorough):
    jobs = []
    for kind in ("raw", "guid"):
        for size in range(12, 33):
            for mode in ("same", "on", "mixed"):
                if thorough or size in (12, 13, 16, 31, 32):
                    jobs.append(("rounds", (kind, size, mode)))
            jobs.append(("nodes", (kind, size)))
            jobs.append(("order", (kind, size, 2)))
        jobs.append(("order", (kind, 16, 3)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0), str(e)[:1500]


def main():
    check = Check("C19")
    check.assumptions = [
        "bytecodes & single dict/iterator operations are atomic (CPython "
        "with a global interpreter lock)",
    ]
    for part, execute in (("threads", execute_threads), ("tasks", execute_tasks)):
        explore_all(
            check, scenarios(check.thorough, part), execute, None, part=part,
            sticky=(0,) if part == "tasks" else (),
        )
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((n, d), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=d, transitions=n, traces=d)
        check.part(name, jobs=1, calls=n)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    for job in jobs[::40]:
        check.sample(repr(job)[:200])
    return check.finish()


def replay(data):
    if "job" in data:
        out = work(jobs_for(data["tier"] == "thorough")[data["job"]])
        print(out)
        return 1 if out[1] else 0
    execute = dict(threads=execute_threads, tasks=execute_tasks)[data["part"]]
    spec = next(
        s
        for t in (0, 1)
        for n, s, _ in scenarios(t, data["part"])
        if n == data["name"]
    )
    devs = [
        (i, tuple(p) if isinstance(p, list) else p) for i, p in data["devs"]
    ]
    ex = execute(spec)
    ex([])
    out = ex(devs)
    print(out[2], "\n", out[3])
    return 1 if out[3] else 0
