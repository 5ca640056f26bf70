"""
C08: several feeders, one consumer & finishers on one message stream.
"""

import asyncio
import itertools

from mc import boot, tasks, threads
from mc.report import Check
from .cipherlib import KEY, Sized, cipher_type
from .guardlib import explore_all

A = boot.load()
from aiootp._exceptions import CipherStreamIsClosed, InvalidBlockID  # noqa: E402

FILES = (
    "/aiootp/asynchs/guards/",
    "/aiootp/ciphers/cipher_streams",
    "/aiootp/ciphers/decipher_streams",
)
AAD = b"shared"


class World:
    """
    `rows`: what each user does in turn:

    "f5"  feeds a piece of 5 bytes (sender) or the packets 5 (receiver,
          given as digits: "f01" feeds packets 0 & 1 in one call)
    "t"   takes what is available
    "T"   takes one item
    "z"   finishes & takes the rest
    """

    def __init__(self, side, base, rows):
        self.side, self.rows = side, rows
        self.c = (
            # an inner header of two blocks
            cipher_type("S", siv_key_bytes=60)
            if base == "W"
            else cipher_type(base)
        )(KEY)
        boot.CTL.urandom = Sized.counter(3)
        try:
            if side == "recv":
                cfg = self.c._config
                self.text = bytes(
                    i % 251
                    for i in range(
                        3 * cfg.BLOCKSIZE - cfg.INNER_HEADER_BYTES - 9
                    )
                )
                s = self.c.stream_encrypt(aad=AAD)
                pairs = [*s.buffer(self.text), *s.finalize()]
                self.packets = [i + b for i, b in pairs]
                self.tag, self.salt, self.iv = s.shmac.result, s.salt, s.iv
        finally:
            boot.CTL.urandom = None
        self.clock = 0
        self.taken = []  # (user, item) in the order of arrival
        self.calls = []  # [user, op, begin, end, outcome]
        self.stream = None

    def make(self):
        if self.side == "send":
            self.stream = self.c.stream_encrypt(aad=AAD)
        else:
            self.stream = self.c.stream_decrypt(
                salt=self.salt, iv=self.iv, aad=AAD
            )

    async def amake(self):
        if self.side == "send":
            self.stream = await self.c.astream_encrypt(aad=AAD)
        else:
            self.stream = await self.c.astream_decrypt(
                salt=self.salt, iv=self.iv, aad=AAD
            )

    def piece(self, u, k, op):
        if self.side == "send":
            return bytes([65 + 8 * u + k]) * int(op[1:])
        return b"".join(self.packets[int(d)] for d in op[1:])

    def begin(self, u, op):
        self.clock += 1
        row = [u, op, self.clock, None, None]
        self.calls.append(row)
        return row

    def end(self, row, outcome):
        self.clock += 1
        row[3] = self.clock
        row[4] = outcome

    def perform(self, u, k, op, note):
        row = self.begin(u, op)
        note(u, op)
        try:
            if op[0] == "f":
                self.stream.buffer(self.piece(u, k, op))
            elif op == "t":
                for x in self.stream:
                    self.taken.append((u, x))
            elif op == "T":
                for x in self.stream:
                    self.taken.append((u, x))
                    break
            else:
                for x in self.stream.finalize():
                    self.taken.append((u, x))
            outcome = "ok"
        except threads.Abort:
            raise
        except Exception as e:
            outcome = type(e).__name__
        self.end(row, outcome)
        note(u, op, outcome)

    async def aperform(self, u, k, op, note):
        row = self.begin(u, op)
        note(u, op)
        try:
            if op[0] == "f":
                await self.stream.abuffer(self.piece(u, k, op))
            elif op == "t":
                async for x in self.stream:
                    self.taken.append((u, x))
            elif op == "T":
                gen = self.stream.__aiter__()
                async for x in gen:
                    self.taken.append((u, x))
                    break
                await gen.aclose()
            else:
                async for x in self.stream.afinalize():
                    self.taken.append((u, x))
            outcome = "ok"
        except (asyncio.CancelledError, GeneratorExit):
            raise
        except Exception as e:
            outcome = type(e).__name__
        self.end(row, outcome)
        note(u, op, outcome)

    # ---- the verdict --------------------------------------------------

    def judge(self):
        return self.judge_send() if self.side == "send" else self.judge_recv()

    def finishers(self):
        done = [c for c in self.calls if c[1] == "z"]
        won = [c for c in done if c[4] == "ok"]
        if len(won) != 1:
            return f"{len(won)} finishers succeeded: {self.calls}"
        for c in done:
            if c[4] not in ("ok", "CipherStreamIsClosed"):
                return f"finishing gave {c[4]}"
        return None

    def judge_send(self):
        bad = self.finishers()
        if bad:
            return bad
        accepted = []
        first_z = min(c[2] for c in self.calls if c[1] == "z")
        seen = {}
        for c in self.calls:
            u, op, begin, end, outcome = c
            if op[0] == "f":
                k = seen[u] = seen.get(u, -1) + 1
                piece = self.piece(u, self.position(u, k), op)
                if outcome == "ok":
                    accepted.append((begin, end, u, piece))
                elif outcome != "CipherStreamIsClosed":
                    return f"feeding gave {outcome}"
                elif end < first_z:
                    return "a piece was refused though nobody was finishing"
            elif op in "tT" and outcome != "ok":
                return f"taking gave {outcome}"
        s = self.stream
        pairs = [x for _, x in self.taken]
        whole = s.shmac.result + s.salt + s.iv + b"".join(b for _, b in pairs)
        try:
            got = self.c.bytes_decrypt(whole, aad=AAD)
        except Exception as e:
            return f"the result doesn't decrypt: {e!r}"
        r = self.c.stream_decrypt(salt=s.salt, iv=s.iv, aad=AAD)
        try:
            for i, b in pairs:
                r.buffer(i + b)
        except Exception as e:
            return f"a receiving stream refuses the result: {e!r}"
        # some order of the accepted pieces which respects real time
        if len(accepted) > 6:
            where = {x[3][:1]: x for x in accepted}
            letters = [bytes([x]) for x in dict.fromkeys(got)]
            order = [where.get(x) for x in letters]
            orders = [] if None in order else [order]
        else:
            orders = itertools.permutations(accepted)
        for order in orders:
            if b"".join(p for *_, p in order) != got or len(order) < len(accepted):
                continue
            if all(
                not (order[j][1] < order[i][0])
                for i in range(len(order))
                for j in range(i + 1, len(order))
            ):
                return None
        return f"the message isn't the accepted pieces in order: {got!r:.80}"

    def position(self, u, k):
        at = [i for i, op in enumerate(self.rows[u]) if op[0] == "f"]
        return at[k]

    def judge_recv(self):
        ok = 0
        firsts = [c[2] for c in self.calls if c[1] == "z"]
        for c in self.calls:
            u, op, begin, end, outcome = c
            if op[0] == "f":
                if outcome == "CipherStreamIsClosed":
                    if not firsts or end < min(firsts):
                        return "refused as closed though nobody was finishing"
                elif outcome not in ("ok", "InvalidBlockID"):
                    return f"feeding gave {outcome}"
            elif op in "tT":
                # nothing can be taken before something was fed
                if outcome not in ("ok", "IndexError"):
                    return f"taking gave {outcome}"
        # replay the accepted calls in some order which respects real
        # time & explains every outcome
        feeds = [c for c in self.calls if c[1][0] == "f"]
        final = None
        for order in itertools.permutations(feeds):
            if any(
                order[j][3] < order[i][2]
                for i in range(len(order))
                for j in range(i + 1, len(order))
            ):
                continue
            at, fine = 0, True
            for c in order:
                good = True
                if c[4] == "CipherStreamIsClosed":
                    continue
                for d in c[1][1:]:
                    if int(d) == at:
                        at += 1
                    else:
                        good = False
                        break
                if good != (c[4] == "ok"):
                    fine = False
                    break
            if fine:
                final = at if final is None else max(final, at)
                break
        if final is None:
            return "the outcomes of feeding have no explanation"
        out = b"".join(x for _, x in self.taken)
        if firsts:
            if final == len(self.packets):
                bad = self.finishers()
                if bad:
                    return bad
            complete = final == len(self.packets)
            try:
                self.stream.shmac.test_shmac(self.tag)
                valid = True
            except Exception:
                valid = False
            if valid != complete:
                return f"{final} packets, valid={valid}"
            if complete and out != self.text:
                return "complete, but another message came out"
        elif not self.text.startswith(out):
            return "bytes came out which weren't sent in that order"
        return None


def execute_threads(spec):
    side, base, rows, mode = spec

    def execute(devs):
        world = World(side, base, rows)
        world.make()

        def program(u):
            def run(s, tid):
                for k, op in enumerate(rows[u]):
                    world.perform(u, k, op, s.event)

            return run

        s = threads.Sched(
            [program(u) for u in range(len(rows))],
            devs,
            files=FILES,
            mode=mode,
        )
        s.run()
        bad = None
        if s.verdict is not None:
            bad = f"{s.verdict} after {s.log}"
        else:
            for t, e in enumerate(s.errors):
                if e is not None:
                    bad = f"thread {t}: {e!r}"
            bad = bad or world.judge()
            if bad:
                bad = f"{bad} after {s.log}"
        return s.trace, s.steps, tuple(s.log), bad, s.diverged

    return execute


def execute_tasks(spec):
    side, base, rows = spec

    def execute(devs):
        world = World(side, base, rows)

        async def one(u, note):
            for k, op in enumerate(rows[u]):
                await world.aperform(u, k, op, note)

        async def main(loop):
            await world.amake()
            await asyncio.gather(
                *(one(u, loop.event) for u in range(len(rows)))
            )

        loop, _, error = tasks.run(main, devs, patience=60 + 12 * len(rows))
        if error is not None:
            bad = f"{error!r} after {loop.log}"
        else:
            bad = world.judge()
            if bad:
                bad = f"{bad} after {loop.log}"
        return loop.trace, loop.steps, tuple(loop.log), bad, loop.diverged

    return execute


SEND = [
    (("f40",), ("f5", "z")),
    (("f33", "f3"), ("z",)),
    (("f70",), ("t", "z")),
    (("f70", "f40"), ("t", "t", "z")),
    (("f40",), ("z",), ("z",)),
    (("f20",), ("f32",), ("z",)),
    (("f40",), ("f5",), ("t", "z")),
    (("f0",), ("f64",), ("f1", "z")),
]
RECV = [
    (("f0", "f1"), ("t", "T")),
    (("f012",), ("t", "t")),
    (("f01", "f2"), ("z",)),
    (("f0", "f1", "f2"), ("t", "z")),
    (("f01",), ("f2",)),
    (("f012",), ("z",), ("z",)),
    (("f0",), ("f1",), ("t", "f2", "z")),
    (("f01", "f2"), ("f0", "f1")),
]


def thread_scenarios(thorough):
    out = []
    for side, table in (("send", SEND), ("recv", RECV)):
        for i, rows in enumerate(table):
            name = f"{side}:" + "|".join(" ".join(r) for r in rows)
            three = len(rows) > 2
            deep = i in ((0, 2) if side == "send" else (1, 2, 4))
            out.append(
                (
                    f"S:{name}:opcode",
                    (side, "S", rows, "opcode"),
                    2 if thorough and not three else 1,
                )
            )
            out.append(
                (
                    f"S:{name}:line",
                    (side, "S", rows, "line"),
                    (2 if deep and not three else 1) + (1 if thorough else 0),
                )
            )
            if side == "recv" and not three:
                out.append(
                    (
                        f"W:{name}:line",
                        (side, "W", rows, "line"),
                        2 if thorough or i == 1 else 1,
                    )
                )
            if thorough:
                out.append((f"C:{name}:opcode", (side, "C", rows, "opcode"), 1))
    return out


def task_scenarios(thorough):
    out = []
    for side, table in (("send", SEND), ("recv", RECV)):
        for rows in table:
            name = f"{side}:" + "|".join(" ".join(r) for r in rows)
            for base in "SCW":
                if base != "S" and not thorough and len(rows) > 2:
                    continue
                if base == "W" and side == "send":
                    continue
                bound = 1 if base == "C" else 2
                out.append(
                    (f"{base}:{name}", (side, base, rows), bound + (1 if thorough else 0))
                )
    # one schedule each
    for n in range(3, 24):
        for size in (1, 20, 40):
            crowd = ((f"f{size}",),) * n
            for last in (("z",), ("t", "z"), ("t", "t", "f3", "t", "z")):
                name = f"crowd {n} x {size} {'|'.join(last)}"
                out.append((name, ("send", "S", (*crowd, last)), 0))
                out.append((f"{name} first", ("send", "S", (last, *crowd)), 0))
    return out


def main():
    check = Check("C08")
    check.assumptions = [
        "bytecodes & single deque operations are atomic (CPython with a "
        "global interpreter lock)",
        "one consumer at a time; feeders & finishers are unrestricted",
    ]
    explore_all(
        check,
        thread_scenarios(check.thorough),
        execute_threads,
        None,
        part="threads",
    )
    explore_all(
        check,
        task_scenarios(check.thorough),
        execute_tasks,
        None,
        part="tasks",
        sticky=(0,),
    )
    check.sample(repr(execute_tasks(("send", "S", SEND[0]))([])[2]))
    return check.finish()


def replay(data):
    scen = {
        "threads": (thread_scenarios, execute_threads),
        "tasks": (task_scenarios, execute_tasks),
    }[data["part"]]
    spec = next(
        s for t in (0, 1) for n, s, _ in scen[0](t) if n == data["name"]
    )
    devs = [
        (i, tuple(p) if isinstance(p, list) else p) for i, p in data["devs"]
    ]
    ex = scen[1](spec)
    ex([])
    out = ex(devs)
    print(out[2], "\n", out[3])
    return 1 if out[3] else 0
