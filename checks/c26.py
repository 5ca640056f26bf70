"""
C26: random output doesn't repeat, even with a weak system source.
"""

import asyncio
import importlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import threading

from collections import deque
from hashlib import sha3_256, sha3_512, shake_128, shake_256

from mc import boot, tasks, threads
from mc.report import Check, pmap
from .c12 import scratch
from .guardlib import explore_all

A = boot.load()
CTL = boot.CTL
R = A.randoms
FILES = ("/aiootp/randoms/",)
Pool = importlib.import_module(
    "aiootp.randoms.threading_safe_entropy_pool"
).ThreadingSafeEntropyPool
Daemon = importlib.import_module("aiootp.randoms.entropy_daemon").EntropyDaemon
NOW = 1_700_000_000_000_000_000


class Bad(Exception):
    pass


class Weak:
    """
    The system's source & its clocks return constants.
    """

    def __init__(self, byte=b"\x5c"):
        self.byte = byte

    def __enter__(self):
        CTL.urandom = lambda size: self.byte * size
        CTL.perf_ns = CTL.time_ns = lambda: NOW

    def __exit__(self, *a):
        CTL.urandom = CTL.perf_ns = CTL.time_ns = None


def own_pool(hasher=shake_256):
    return Pool(b"seed", obj=hasher, pool=deque([bytes(32)] * 4, maxlen=4))


def drawn(kind, pool, size=32):
    if kind == "csprng":
        return R.csprng(size)
    if kind == "given":
        return R.csprng(size, entropy=b"the same for all")
    if kind == "object":
        return R.csprng(size, entropy=[1, None])
    if kind == "generator":
        return R.random_number_generator(size, freshness=0)
    if kind == "hash":
        return pool.hash(size=size)
    if kind == "data":
        return pool.hash(b"the same", b"for all", size=size)
    raise ValueError(kind)


async def adrawn(kind, pool, size=32):
    if kind == "csprng":
        return await R.acsprng(size)
    if kind == "given":
        return await R.acsprng(size, entropy=b"the same for all")
    if kind == "object":
        return await R.acsprng(size, entropy=[1, None])
    if kind == "generator":
        return await R.arandom_number_generator(size, freshness=0)
    if kind == "fresh":
        return await R.arandom_number_generator(size, freshness=1)
    if kind == "hash":
        return await pool.ahash(size=size)
    if kind == "data":
        return await pool.ahash(b"the same", b"for all", size=size)
    raise ValueError(kind)


def judge(draws, sizes):
    """
    None, or what's wrong with the draws.
    """
    for (who, value), size in zip(draws, sizes):
        if value.__class__ is not bytes or len(value) != size:
            return f"{who} drew {value!r} instead of {size} bytes"
    seen = {}
    for who, value in draws:
        if value in seen:
            return f"{who} & {seen[value]} drew the same"
        seen[value] = who
    return None


def background(pool, gadget):
    """
    One round of the thread which collects entropy in the background.
    """
    caught = []
    real = threading.Thread.start
    threading.Thread.start = lambda self: caught.append(self)
    try:
        daemon = Daemon(entropy_pool=pool, gadget=gadget, max_delay=1e-9)
        daemon.cancel()
        daemon.start()
    finally:
        threading.Thread.start = real
    if len(caught) != 1:
        raise Bad(f"{len(caught)} background threads were started")
    return caught[0].run


# ---- schedules --------------------------------------------------------


def execute_threads(spec):
    """
    Each user is a string of the kinds it draws, one after the other.
    """

    def execute(devs):
        entropy = deque([bytes(32)] * 4, maxlen=4)
        with Weak():
            pool = Pool(b"seed", obj=shake_256, pool=entropy)
            draws = []
            bad = []
            collected = []

            def user(u, kinds):
                if kinds == ("background",):
                    run = background(entropy, pool)

                    def program(s, tid):
                        run()
                        collected.append(entropy[0])
                        s.event("collected")

                    return program

                def program(s, tid):
                    for i, kind in enumerate(kinds):
                        value = drawn(kind, pool)
                        draws.append((f"user {u}'s {kind} {i}", value))
                        s.event(u, i)

                return program

            s = threads.Sched(
                [user(u, kinds) for u, kinds in enumerate(spec)],
                devs,
                files=FILES,
            )
            s.run()
        if s.verdict is not None:
            bad.append(s.verdict)
        bad += [repr(e) for e in s.errors if e is not None]
        problem = judge(draws, [32] * len(draws))
        if problem:
            bad.append(problem)
        if not bad and any(c == bytes(32) for c in collected):
            bad.append("the background thread collected nothing")
        return (
            s.trace,
            s.steps,
            tuple(s.log),
            f"{spec}: {bad[0]}" if bad else None,
            s.diverged,
        )

    return execute


def execute_tasks(spec):
    def execute(devs):
        with Weak():
            pool = own_pool()
            draws = []

            async def main(loop):
                async def user(u, kinds):
                    for i, kind in enumerate(kinds):
                        # every third draw is a synchronous one
                        if (u + i) % 3 == 2 and kind != "generator":
                            value = drawn(kind, pool)
                        else:
                            value = await adrawn(kind, pool)
                        draws.append((f"task {u}'s {kind} {i}", value))
                        loop.event(u, i)

                await asyncio.gather(
                    *(user(u, kinds) for u, kinds in enumerate(spec))
                )

            loop, _, error = tasks.run(main, devs)
        problem = repr(error) if error else judge(draws, [32] * len(draws))
        return (
            loop.trace,
            loop.steps,
            tuple(loop.log),
            f"{spec}: {problem}" if problem else None,
            loop.diverged,
        )

    return execute


def scenarios(thorough, what):
    out = []
    more = bool(thorough)
    if what == "threads":
        for kinds, bound in (
            ("csprng", 3),
            ("given", 2),
            ("object", 1),
            ("hash", 2),
            ("data", 2),
            ("generator", 1),
        ):
            out.append((((kinds,), (kinds,)), bound + more))
            out.append((((kinds,), (kinds,), (kinds,)), min(bound, 2)))
        out.append(((("csprng", "csprng"), ("given",)), 2 + more))
        out.append(((("hash", "hash"), ("hash",)), 2))
        out.append(((("csprng",), ("generator",)), 1 + more))
        out.append(((("background",), ("hash",)), 1 + more))
        out.append(((("background",), ("data",), ("csprng",)), 1))
        out.append(((("background",), ("background",)), 1))
    else:
        kinds = ("csprng", "given", "object", "generator", "hash", "data")
        for kind in kinds:
            less = kind == "generator"  # has many steps
            out.append((((kind, kind), (kind,)), 3 - less + more))
            out.append((((kind,), (kind,), (kind,)), 3 - less + more * (not less)))
            out.append((((kind,), (kind,), (kind,), (kind,)), 2 - less + more))
        for a, b in itertools.combinations(kinds, 2):
            out.append((((a, b), (b, a)), 2 + more))
        out.append(((("fresh",), ("csprng",)), 1))
        if more:
            out.append(((("fresh",), ("fresh",)), 1))
    return [(repr(s), s, bound) for s, bound in out]


# ---- histories --------------------------------------------------------

KINDS = ("csprng", "given", "object", "generator", "hash", "data")


async def histories(first, depth, byte):
    """
    Every sequence of draws of any kind, in both forms.
    """
    n = count = 0
    ops = [(k, form) for k in KINDS for form in "sa" if (k, form) != ("generator", "s")]
    for rest in itertools.product(ops, repeat=depth - 1):
        path = ((KINDS[first], "a"), *rest)
        count += 1
        with Weak(byte):
            pool = own_pool()
            draws = []
            for i, (kind, form) in enumerate(path):
                n += 1
                value = (
                    drawn(kind, pool)
                    if form == "s"
                    else await adrawn(kind, pool)
                )
                draws.append((f"draw {i}", value))
        problem = judge(draws, [32] * len(draws))
        if problem:
            raise Bad(f"{path}: {problem}")
    return n, count


async def sizes(kind):
    """
    Every size, of every kind: exactly as many bytes, & those of one size
    aren't the beginning of those of another.
    """
    n = 0
    with Weak():
        pool = own_pool()
        draws = []
        for size in (*range(1, 300), 1000, 4096, 65_537):
            for form in "sa":
                n += 1
                value = (
                    drawn(kind, pool, size)
                    if form == "s" and kind != "generator"
                    else await adrawn(kind, pool, size)
                )
                if len(value) != size:
                    raise Bad(f"{kind}: {size} bytes were {len(value)}")
                if size >= 16:
                    draws.append((f"size {size} {form}", value[:16]))
                    draws.append((f"end {size} {form}", value[-16:]))
                    if size == 16:
                        draws.pop()
    problem = judge(draws, [16] * len(draws))
    if problem:
        raise Bad(f"{kind}: {problem}")
    return n, n


async def long_run(kind, count):
    """
    Many draws in a row.
    """
    with Weak(b"\x00"):
        pool = own_pool()
        draws = []
        for i in range(count):
            value = (
                await adrawn(kind, pool)
                if i % 2 or kind == "generator"
                else drawn(kind, pool)
            )
            draws.append((f"draw {i}", value))
    problem = judge(draws, [32] * count)
    if problem:
        raise Bad(f"{kind}: {problem}")
    return count, count


async def mixed(kind):
    """
    What the user mixes in has an effect: copies of one pool only agree
    when all they were given agrees, & a pool mixes its own state in.
    """
    n = 0
    values = [(), (b"",), (b"a",), (b"b",), (b"a", b""), (b"", b"a"), (b"a", b"b"), (b"ab",)]
    with Weak():
        for seeds in ((b"x", b"y"), (b"x", b"xx")):
            got = {}
            for seed in seeds:
                for entropy in (bytes(32), b"\x01" * 32):
                    for args in values:
                        for size in (31, 32, 33):
                            n += 1
                            pool = Pool(
                                seed,
                                obj=kind,
                                pool=deque([entropy] * 2, maxlen=2),
                            )
                            took = {
                                pool.copy().hash(*args, size=size),
                                await pool.copy().ahash(*args, size=size),
                            }
                            for value in took:
                                if len(value) != size:
                                    raise Bad(f"{len(value)} for {size}")
                                key = value[:16]
                                which = (seed, entropy, args, size)
                                if got.setdefault(key, which) != which:
                                    raise Bad(f"{got[key]} & {which} agree")
                            before = pool.digest(32)
                            pool.hash(*args, size=size)
                            if pool.digest(32) == before:
                                raise Bad("a draw leaves the pool as it was")
    return n, n


async def fixed(kind):
    """
    A pool which is built on a hash of a fixed size.
    """
    n = 0
    with Weak():
        pool = own_pool(kind)
        draws = []
        for i in range(64):
            n += 1
            value = pool.hash(size=0) if i % 2 else await pool.ahash(size=0)
            draws.append((f"draw {i}", value))
    problem = judge(draws, [kind().digest_size] * n)
    if problem:
        raise Bad(problem)
    return n, n


async def users():
    """
    Salts & keys which the package draws for its users.
    """
    from . import inline

    inline.use()
    n = 0
    with Weak():
        hashes = []
        pc = A.Passcrypt(mb=1, cpu=1, cores=1, tag_size=16, salt_size=16)
        for i in range(12):
            n += 1
            hashes.append(
                await pc.ahash_passphrase(b"the same passphrase")
                if i % 2
                else pc.hash_passphrase(b"the same passphrase")
            )
        if len(set(hashes)) != n:
            raise Bad("two hashes of a passphrase use the same salt")
    return n, n


# ---- processes --------------------------------------------------------


def tree(path, kind, pool, form):
    """
    The values drawn by a process & the processes it forks: `d` draws,
    `f` forks a process which carries the same history on & waits for
    it, `F` forks one which is waited for in the end.
    """
    out = []
    waiting = []

    def reap(item):
        pid, fd = item
        with os.fdopen(fd, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status or not data:
            raise Bad(f"a forked process failed: {path} {kind}")
        out.extend(json.loads(data))

    for i, step in enumerate(path):
        if step == "d":
            value = asyncio.run(adrawn(kind, pool)) if form else drawn(kind, pool)
            out.append(value.hex())
            continue
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(r)
                got = tree(path[i + 1 :], kind, pool, form)
                with os.fdopen(w, "wb") as f:
                    f.write(json.dumps(got).encode())
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        if step == "f":
            reap((pid, r))
        else:
            waiting.append((pid, r))
    for item in waiting:
        reap(item)
    return out


def forks(kind, length, form):
    """
    Every history of draws & forks: the processes never draw the same.
    """
    n = count = 0
    for path in itertools.product("dfF", repeat=length):
        path = "".join(path) + "d"
        if path.count("f") + path.count("F") > 3 or path == "d" * len(path):
            continue
        with Weak():
            pool = own_pool()
            values = tree(path, kind, pool, form)
        n += len(values)
        count += 1
        if len(set(values)) != len(values):
            raise Bad(
                f"{kind} {path}: {len(values)} draws of several processes "
                f"gave {len(set(values))} values"
            )
    return n, count


STARTED = """
import os, sys, json
sys.path.insert(0, {verif!r})
import _thread, threading
os.getpid = lambda: 4242
_thread.get_ident = lambda: 4343
from mc import boot
boot.CTL.urandom = lambda n: b"\\x5c" * n
boot.CTL.perf_ns = boot.CTL.time_ns = lambda: {now}
A = boot.load()
print(json.dumps([A.csprng(32).hex(), A.csprng(16).hex()]))
"""


TWINS = """
import asyncio
VALUES = [
    b"", b"a", b"b", b"aa", b"\\x00", bytes(300) + b"a", bytes(300) + b"b",
    None, 0, 1, "x", [1], [2], [1, 2], (), object,
]
WAYS = dict(
    csprng=lambda v: A.csprng(32, entropy=v),
    acsprng=lambda v: asyncio.run(A.acsprng(32, entropy=v)),
    rng=lambda v: A.randoms.random_number_generator(32, entropy=v, freshness=0),
    arng=lambda v: asyncio.run(
        A.randoms.arandom_number_generator(32, entropy=v, freshness=0)
    ),
    fresh=lambda v: A.randoms.random_number_generator(32, entropy=v, freshness=1),
)
for name, way in WAYS.items():
    rows = []
    for i in (*range(len(VALUES)), 0):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                row = [way(VALUES[i]).hex(), A.csprng(32).hex()]
                os.write(w, json.dumps(row).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            rows.append(f.read().decode())
        os.waitpid(pid, 0)
    print(json.dumps([name, rows]))
"""


async def twins():
    """
    Processes which are alike in everything but what their user mixes in
    draw different values, then & afterwards.
    """
    n = count = 0
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    done = subprocess.run(
        [
            sys.executable,
            "-c",
            STARTED.format(verif=here, now=NOW) + TWINS,
        ],
        env=dict(os.environ, VERIF_REPO=boot.REPO),
        capture_output=True,
        text=True,
        timeout=300,
    )
    if done.returncode:
        raise Bad(f"mixing failed: {done.stderr[-600:]}")
    for line in done.stdout.splitlines()[1:]:
        name, rows = json.loads(line)
        n += len(rows)
        if "" in rows:
            raise Bad(f"{name}: value {rows.index('')} can't be mixed in")
        rows = [json.loads(row) for row in rows]
        *rows, again = rows
        count += again == rows[0]
        for which in (0, 1):
            if len({row[which] for row in rows}) != len(rows):
                raise Bad(
                    f"{name}: {'the same draws' if not which else 'the same draws afterwards'}"
                    " whatever is mixed in"
                )
    return n, count


async def restarts(count, byte):
    """
    The package is started over & over in the same surroundings: same
    clock, same process & thread numbers, same system randomness. What
    it draws differs, as the seed it keeps on the disk moves on.
    """
    top = scratch()
    try:
        repo = os.path.join(top, "repo")
        os.mkdir(repo)
        shutil.copytree(
            os.path.join(boot.REPO, "aiootp"),
            os.path.join(repo, "aiootp"),
            ignore=shutil.ignore_patterns("__pycache__", "databases_"),
        )
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, VERIF_REPO=repo)
        seen = []
        for i in range(count):
            done = subprocess.run(
                [
                    sys.executable,
                    "-c",
                    STARTED.format(verif=here, now=NOW),
                ],
                env=env,
                capture_output=True,
                text=True,
                timeout=300,
            )
            if done.returncode:
                raise Bad(f"start {i} failed: {done.stderr[-600:]}")
            seen += json.loads(done.stdout.splitlines()[-1])
        if len(set(s[:32] for s in seen)) != len(seen):
            raise Bad(f"{count} starts drew {seen}")
        return len(seen), count
    finally:
        shutil.rmtree(top, ignore_errors=True)


# ---- ranges -----------------------------------------------------------


class Feed:
    """
    A system source which gives a first number & then zeros.
    """

    def __init__(self, first):
        self.first = first

    def __call__(self, size):
        value, self.first = self.first, 0
        return (value & ((1 << 8 * size) - 1)).to_bytes(size, "big")


async def choices():
    """
    With every outcome of the system's source: only elements of the
    sequence are chosen, & each of them equally often.
    """
    n = 0
    try:
        for length in range(1, 40):
            for seq in (list(range(length)), bytes(range(length)), "x" * length):
                counts = [{}, {}]
                for first in range(256):
                    for form in (0, 1):
                        n += 1
                        CTL.urandom = Feed(first)
                        got = await R.achoice(seq) if form else R.choice(seq)
                        if got not in seq:
                            raise Bad(f"{got!r} chosen out of {seq!r}")
                        c = counts[form]
                        c[got] = c.get(got, 0) + 1
                if counts[0] != counts[1]:
                    raise Bad(f"the forms differ over {seq!r}")
                if len(set(counts[0])) != len(set(seq)):
                    raise Bad(
                        f"{len(set(seq)) - len(counts[0])} elements of {seq!r} "
                        "are never chosen"
                    )
                rest = [v for k, v in counts[0].items() if k != seq[0]]
                if len(set(rest)) > 1:
                    raise Bad(f"uneven choices over {length}: {counts[0]}")
        for empty in ([], b"", ""):
            for form in (0, 1):
                n += 1
                try:
                    await R.achoice(empty) if form else R.choice(empty)
                except IndexError:
                    continue
                raise Bad("chose out of nothing")
    finally:
        CTL.urandom = None
    return n, n


async def bits():
    """
    Bits & bytes: every value of the range is reached, & none outside.
    """
    n = 0
    try:
        for k in range(1, 9):
            for form in (0, 1):
                got = {}
                for first in range(256):
                    n += 1
                    CTL.urandom = Feed(first)
                    v = await R.atoken_bits(k) if form else R.token_bits(k)
                    got[v] = got.get(v, 0) + 1
                if sorted(got) != list(range(1 << k)):
                    raise Bad(f"{k} bits gave {sorted(got)}")
                if len(set(got.values())) != 1:
                    raise Bad(f"uneven bits: {got}")
        for k in range(1, 300):
            for byte in (b"\x00", b"\xff"):
                CTL.urandom = lambda size: byte * size
                want = (1 << k) - 1 if byte == b"\xff" else 0
                n += 2
                if not R.token_bits(k) == await R.atoken_bits(k) == want:
                    raise Bad(f"{k} bits don't reach {want}")
        for size in range(300):
            CTL.urandom = lambda size: bytes(i % 256 for i in range(size))
            n += 2
            want = bytes(i % 256 for i in range(size))
            a, b = R.token_bytes(size), await R.atoken_bytes(size)
            if len(a) != size or len(b) != size or a != b:
                raise Bad(f"{size} bytes were {len(a)} & {len(b)}")
            if sorted(a) != sorted(want):
                raise Bad(f"bytes of the source are lost at size {size}")
    finally:
        CTL.urandom = None
    return n, n


async def delays():
    """
    Delays which aren't positive are refused, & leave the old one.
    """
    n = 0
    good = (1, 0.5, 1e-9, 10**9)
    wrong = (0, -1, -0.5, 0.0)
    for first in good:
        for value in (*good, *wrong):
            for how in ("new", "set", "temporary"):
                n += 1
                pool = own_pool()
                kw = dict(entropy_pool=deque([bytes(32)] * 2), gadget=pool)
                try:
                    if how == "new":
                        Daemon(max_delay=value, **kw)
                    elif how == "set":
                        Daemon(max_delay=first, **kw).set_max_delay(value)
                    else:
                        Daemon(max_delay=first, **kw).set_temporary_max_delay(
                            value, duration=1
                        )
                except ValueError:
                    if value in good:
                        raise Bad(f"delay {value} refused ({how})")
                    continue
                if value in wrong:
                    raise Bad(f"delay {value} accepted ({how})")
    for bad in (-1, -5):
        try:
            await R.arandom_number_generator(16, freshness=bad)
        except ValueError:
            n += 1
            continue
        raise Bad(f"freshness {bad} accepted")
    return n, n


SECTIONS = dict(
    histories=histories,
    sizes=sizes,
    long_run=long_run,
    mixed=mixed,
    fixed=fixed,
    users=users,
    forks=forks,
    restarts=restarts,
    twins=twins,
    choices=choices,
    bits=bits,
    delays=delays,
)


def jobs_for(thorough):
    jobs = [("restarts", (6 if thorough else 3, 0x5C)), ("twins", ())]
    for first in range(len(KINDS)):
        jobs.append(("histories", (first, 3, b"\x00")))
        jobs.append(("histories", (first, 4, b"\x5c")))
        if thorough:
            jobs.append(("histories", (first, 5, b"\xff")))
        jobs.append(("sizes", (KINDS[first],)))
        jobs.append(("long_run", (KINDS[first], 20_000 if thorough else 2000)))
    for kind in KINDS:
        for length in (1, 2, 3, 4)[: 4 if thorough or kind == "csprng" else 3]:
            jobs.append(("forks", (kind, length, 0)))
            if length < 3 or thorough:
                jobs.append(("forks", (kind, length, 1)))
    jobs += [("mixed", (shake_128,)), ("mixed", (shake_256,))]
    jobs += [("fixed", (sha3_256,)), ("fixed", (sha3_512,))]
    jobs += [("users", ()), ("choices", ()), ("bits", ()), ("delays", ())]
    return jobs


def work(job):
    name, args = job
    try:
        out = SECTIONS[name](*args)
        if asyncio.iscoroutine(out):
            out = asyncio.run(out)
        return out, None
    except Bad as e:
        return (0, 0), str(e)[:1500]


def main():
    check = Check("C26")
    check.assumptions = [
        "bytecodes & single deque/hash-object operations are atomic "
        "(CPython with a global interpreter lock)",
        "threads which are alive & processes which are alive have different "
        "numbers",
    ]
    for part, execute in (("threads", execute_threads), ("tasks", execute_tasks)):
        explore_all(
            check, scenarios(check.thorough, part), execute, None, part=part,
            sticky=(0,) if part == "tasks" else (),
        )
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((n, d), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=d, transitions=n, traces=d)
        check.part(name, jobs=1, calls=n)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    for job in jobs[::8]:
        check.sample(repr(job)[:200])
    return check.finish()


def replay(data):
    if "job" in data:
        out = work(jobs_for(data["tier"] == "thorough")[data["job"]])
        print(out)
        return 1 if out[1] else 0
    execute = dict(threads=execute_threads, tasks=execute_tasks)[data["part"]]
    spec = next(
        s
        for t in (0, 1)
        for n, s, _ in scenarios(t, data["part"])
        if n == data["name"]
    )
    devs = [
        (i, tuple(p) if isinstance(p, list) else p) for i, p in data["devs"]
    ]
    ex = execute(spec)
    ex([])
    out = ex(devs)
    print(out[2], "\n", out[3])
    return 1 if out[3] else 0
