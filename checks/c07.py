"""
C07: message streams.
"""

import asyncio
import itertools

from mc import boot
from mc.report import Check, pmap
from .cipherlib import KEY, Sized, cipher_type, pattern, weave

A = boot.load()
from aiootp._exceptions import (  # noqa: E402
    CipherStreamIsClosed,
    InvalidBlockID,
    ValidationIncomplete,
)

AAD = b"stream"
CONFIGS = [
    ("C", {}),
    ("S", {}),
    ("C", dict(blocksize=40)),
    ("C", dict(min_padding_blocks=1)),
    ("C", dict(blocksize=258)),
    ("S", dict(min_padding_blocks=2)),
    ("S", dict(siv_key_bytes=28)),
    ("S", dict(blocksize=48, siv_key_bytes=60)),
    ("S", dict(min_padding_blocks=8)),
]


class Bad(Exception):
    pass


class Sender:
    def __init__(self, c, way):
        self.c, self.way, self.out = c, way, []

    async def open(self):
        if self.way == "sync":
            self.s = self.c.stream_encrypt(aad=AAD)
        else:
            self.s = await self.c.astream_encrypt(aad=AAD)
        return self

    async def buffer(self, data):
        if self.way == "sync":
            self.s.buffer(data)
        else:
            await self.s.abuffer(data)

    async def take(self, limit=None):
        await drain(self.way, self.s, self.out, limit)

    async def finish(self):
        gen = self.s.finalize() if self.way == "sync" else self.s.afinalize()
        await drain(self.way, gen, self.out, None)


class Receiver:
    def __init__(self, c, way, salt, iv, aad=AAD):
        self.c, self.way, self.out = c, way, []
        self.args = dict(salt=salt, iv=iv, aad=aad)

    async def open(self):
        if self.way == "sync":
            self.s = self.c.stream_decrypt(**self.args)
        else:
            self.s = await self.c.astream_decrypt(**self.args)
        return self

    buffer = Sender.buffer
    take = Sender.take
    finish = Sender.finish

    async def test(self, tag):
        if self.way == "sync":
            self.s.shmac.test_shmac(tag)
        else:
            await self.s.shmac.atest_shmac(tag)


async def drain(way, source, out, limit):
    """
    Consumes everything, or the next `limit` items.
    """
    if limit == 0:
        return
    n = 0
    if way == "sync":
        for x in source:
            out.append(x)
            n += 1
            if n == limit:
                break
    else:
        gen = source.__aiter__()
        async for x in gen:
            out.append(x)
            n += 1
            if n == limit:
                break
        if hasattr(gen, "aclose"):
            await gen.aclose()


async def receive(c, way, salt, iv, pairs, tag, groups=None, takes=None):
    """
    Feeds packets in groups, consuming after each; returns the text.
    """
    r = await Receiver(c, way, salt, iv).open()
    packets = [i + b for i, b in pairs]
    groups = groups or [1] * len(packets)
    at = 0
    for k, size in enumerate(groups):
        await r.buffer(b"".join(packets[at : at + size]))
        at += size
        await r.take(None if takes is None else takes[k])
    await r.finish()
    await r.test(tag)
    return b"".join(r.out)


def piece_sizes(cfg, few):
    b = cfg.BLOCKSIZE
    first = (-cfg.INNER_HEADER_BYTES) % b or b
    f = cfg.PADDING_FRAME
    sizes = [0, 1, first - 1, first, first + 1, b - 1, b, b + 1]
    if not few:
        sizes += [2 * b, f - cfg.SENTINEL_BYTES, f + 2 * b + 1]
    return sorted({s for s in sizes if s >= 0})


async def chunks(base, changes, way, first, depth, few):
    """
    Every sequence of pieces from boundary sizes, consuming none, one or
    all of what is available after each piece.
    """
    c = cipher_type(base, **changes)(KEY)
    cfg = c._config
    sizes = piece_sizes(cfg, few)
    steps = list(itertools.product(sizes, (0, 1, None)))
    other = "aio" if way == "sync" else "sync"
    traces = moves = 0
    text = pattern("count", depth * max(sizes) + 1)
    for rest in itertools.product(steps, repeat=depth - 1):
        seq = (steps[first], *rest)
        at = 0
        s = await Sender(c, way).open()
        for size, take in seq:
            await s.buffer(text[at : at + size])
            at += size
            await s.take(take)
            moves += 2
        await s.finish()
        data = text[:at]
        tag = s.s.shmac.result
        total = sum(len(b) for _, b in s.out)
        if total % cfg.BLOCKSIZE or any(
            len(b) != cfg.BLOCKSIZE or len(i) != cfg.BLOCK_ID_BYTES
            for i, b in s.out
        ):
            raise Bad(f"{seq}: blocks of the wrong size")
        for dest in (way,) if traces % 4 else (way, other):
            try:
                got = await receive(c, dest, s.s.salt, s.s.iv, s.out, tag)
            except Exception as e:
                raise Bad(f"pieces {seq} -> {dest}: {e!r}")
            if got != data:
                raise Bad(f"pieces {seq} -> {dest}: another message")
            moves += 2 * len(s.out) + 2
        whole = tag + s.s.salt + s.s.iv + b"".join(b for _, b in s.out)
        if c.bytes_decrypt(whole, aad=AAD) != data:
            raise Bad(f"pieces {seq}: one-shot decryption differs")
        traces += 1
    return traces, moves, traces


async def groups(base, changes, way, most):
    """
    Every way to group the packets, consuming after each group.
    """
    c = cipher_type(base, **changes)(KEY)
    cfg = c._config
    traces = moves = 0
    for n in range(1, most + 1):
        for cut in (0, 1, cfg.BLOCKSIZE // 2):
            size = n * cfg.BLOCKSIZE - cfg.INNER_HEADER_BYTES - cut
            if size < 0:
                continue
            text = pattern("count", size)
            s = await Sender(c, way).open()
            await s.buffer(text)
            await s.finish()
            count = len(s.out)
            if count > most + 1:
                continue
            for cuts in range(2 ** (count - 1)):
                sizes, run = [], 1
                for b in range(count - 1):
                    if cuts >> b & 1:
                        sizes.append(run)
                        run = 1
                    else:
                        run += 1
                sizes.append(run)
                for takes in itertools.product((0, 1, None), repeat=len(sizes)):
                    try:
                        got = await receive(
                            c, way, s.s.salt, s.s.iv, s.out,
                            s.s.shmac.result, sizes, takes,
                        )
                    except Exception as e:
                        raise Bad(f"{size} in groups {sizes} {takes}: {e!r}")
                    if got != text:
                        raise Bad(f"{size} in groups {sizes} {takes}: differs")
                    traces += 1
                    moves += 2 * len(sizes) + 2
    return traces, moves, traces


def bad_packets(c, pairs, foreign):
    """
    Everything that isn't a genuine packet of the message.
    """
    n = c._config.BLOCKSIZE
    out = {}
    for k, (i, b) in enumerate(pairs):
        out[f"altered id {k}"] = bytes([i[0] ^ 1]) + i[1:] + b
        out[f"altered block {k}"] = i + b[:-1] + bytes([b[-1] ^ 0x80])
        j = (k + 1) % len(pairs)
        if j != k:
            out[f"id {k} on block {j}"] = i + pairs[j][1]
    out["foreign 0"] = b"".join(foreign[0])
    out["foreign last"] = b"".join(foreign[-1])
    out["zeros"] = bytes(c._config.PACKETSIZE)
    return out


async def offers(base, changes, way, blocks, depth, part, parts):
    """
    Every sequence of genuine & bad packets, consumption & finishing
    against a reference receiver.
    """
    c = cipher_type(base, **changes)(KEY)
    cfg = c._config
    b = cfg.BLOCKSIZE
    size = blocks * b - cfg.INNER_HEADER_BYTES - cfg.SENTINEL_BYTES - 1
    size -= cfg.MIN_PADDING_BLOCKS * b
    text = pattern("count", max(0, size))
    s = await Sender(c, way).open()
    await s.buffer(text)
    await s.finish()
    pairs = s.out
    genuine = [i + x for i, x in pairs]
    t = await Sender(c, way).open()
    await t.buffer(text)
    await t.finish()
    tag, salt, iv = s.s.shmac.result, s.s.salt, s.s.iv
    bad = bad_packets(c, pairs, t.out)
    ops = [("feed", f"genuine {k}", g) for k, g in enumerate(genuine)]
    ops += [("feed", k, v) for k, v in bad.items()]
    if len(genuine) > 1:
        ops.append(("feed", "genuine 0, 1", genuine[0] + genuine[1]))
        ops.append(("feed", "genuine 0, bad, 1", genuine[0] + bad["zeros"] + genuine[1]))
    ops.append(("odd", "empty", b""))
    ops.append(("odd", "one byte short", genuine[0][:-1]))
    ops.append(("odd", "one byte long", genuine[0] + b"\x00"))
    ops.append(("take", None, None))
    ops.append(("finish", None, None))
    p = cfg.PACKETSIZE
    traces = moves = 0
    states = set()
    for seq in itertools.product(range(len(ops)), repeat=depth):
        if seq[0] % parts != part:
            continue
        r = await Receiver(c, way, salt, iv).open()
        done, closed = 0, False
        names = []
        for k in seq:
            op, name, data = ops[k]
            names.append(name or op)
            moves += 1
            states.add((done, closed, k))
            try:
                if op in ("feed", "odd"):
                    await r.buffer(data)
                elif op == "take":
                    await r.take()
                else:
                    await r.finish()
                error = None
            except Exception as e:
                error = e
            if op == "odd":
                if error is None:
                    raise Bad(f"{names}: malformed data was taken")
            elif op == "feed" and closed:
                if not isinstance(error, CipherStreamIsClosed):
                    raise Bad(f"{names}: a finished stream gave {error!r}")
            elif op == "feed":
                good = 0
                for x in range(0, len(data), p):
                    if (
                        done + good < len(genuine)
                        and data[x : x + p] == genuine[done + good]
                    ):
                        good += 1
                    else:
                        break
                done += good
                if good * p == len(data):
                    if error is not None:
                        raise Bad(f"{names}: genuine data refused: {error!r}")
                elif not isinstance(error, InvalidBlockID):
                    raise Bad(f"{names}: a bad packet gave {error!r}")
                else:
                    state = error.failure_state
                    at = good * p
                    n = cfg.BLOCK_ID_BYTES
                    if (
                        state.block_id != data[at : at + n]
                        or state.block != data[at + n : at + p]
                    ):
                        raise Bad(f"{names}: another packet is blamed")
            elif op == "take":
                if error is not None and done:
                    raise Bad(f"{names}: reading failed: {error!r}")
            elif closed:
                if not isinstance(error, CipherStreamIsClosed):
                    raise Bad(f"{names}: finishing twice gave {error!r}")
            else:
                closed = True
                if done and error is not None and done == len(genuine):
                    raise Bad(f"{names}: finishing failed: {error!r}")
            if not text.startswith(b"".join(r.out)) and done < len(genuine):
                # before the end what comes out is what was sent, but
                # the end of a cut message isn't known to be one
                if not closed:
                    raise Bad(f"{names}: gave bytes which weren't sent")
        # whatever happened, the genuine rest is accepted & completes it
        if not closed:
            try:
                for g in genuine[done:]:
                    await r.buffer(g)
                    moves += 1
                await r.finish()
                await r.test(tag)
            except Exception as e:
                raise Bad(f"{names}: then the genuine rest failed: {e!r}")
            if b"".join(r.out) != text:
                raise Bad(f"{names}: then another message came out")
        else:
            try:
                await r.test(tag)
                valid = True
            except Exception:
                valid = False
            if valid != (done == len(genuine)):
                raise Bad(f"{names}: {done} of {len(genuine)} is valid={valid}")
            if valid and b"".join(r.out) != text:
                raise Bad(f"{names}: complete, but another message")
        traces += 1
    return traces, moves, len(states)


async def sending(base, changes, way, depth, first):
    """
    Every sequence of sender calls, including ones which come too late.
    """
    c = cipher_type(base, **changes)(KEY)
    cfg = c._config
    b = cfg.BLOCKSIZE
    ops = [("buffer", n) for n in (0, 3, b, 2 * b + 1)]
    ops += [("take", 1), ("take", None), ("result", 0), ("finish", 0)]
    text = pattern("count", depth * (2 * b + 1))
    traces = moves = 0
    states = set()
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = [ops[k] for k in (first, *rest)]
        s = await Sender(c, way).open()
        data, at, closed = b"", 0, False
        for op, n in seq:
            moves += 1
            states.add((at, closed, op))
            try:
                if op == "buffer":
                    await s.buffer(text[at : at + n])
                elif op == "take":
                    await s.take(n)
                elif op == "result":
                    s.s.shmac.result
                else:
                    await s.finish()
                error = None
            except Exception as e:
                error = e
            if op == "buffer":
                if closed:
                    if not isinstance(error, CipherStreamIsClosed):
                        raise Bad(f"{seq}: too late, gave {error!r}")
                elif error is not None:
                    raise Bad(f"{seq}: buffering failed: {error!r}")
                else:
                    data += text[at : at + n]
                    at += n
            elif op == "take":
                if error is not None:
                    raise Bad(f"{seq}: reading failed: {error!r}")
            elif op == "result":
                if closed != (error is None) or (
                    not closed and not isinstance(error, ValidationIncomplete)
                ):
                    raise Bad(f"{seq}: tag gave {error!r}")
            elif closed:
                if not isinstance(error, CipherStreamIsClosed):
                    raise Bad(f"{seq}: finishing twice gave {error!r}")
            else:
                closed = True
                if error is not None:
                    raise Bad(f"{seq}: finishing failed: {error!r}")
        if not closed:
            await s.finish()
        try:
            got = await receive(
                c, way, s.s.salt, s.s.iv, s.out, s.s.shmac.result
            )
        except Exception as e:
            raise Bad(f"{seq}: receiving failed: {e!r}")
        if got != data:
            raise Bad(f"{seq}: another message came out")
        traces += 1
    return traces, moves, len(states)


async def progress(base, changes, way, step):
    """
    While a stream runs, all but a bounded number of last blocks come
    out, on both sides, after every piece.
    """
    c = cipher_type(base, **changes)(KEY)
    cfg = c._config
    size = cfg.BLOCKSIZE
    held = 8 + 2 * ((cfg.PADDING_FRAME + cfg.INNER_HEADER_BYTES) // size)
    text = pattern("count", 3 * held * size)
    moves = 0
    s = await Sender(c, way).open()
    for at in range(0, len(text), step):
        await s.buffer(text[at : at + step])
        await s.take()
        moves += 2
        behind = (at + step) // size - len(s.out)
        if behind > held:
            raise Bad(f"pieces of {step}: the sender holds back {behind} blocks")
    await s.finish()
    r = await Receiver(c, way, s.s.salt, s.s.iv).open()
    for k, (block_id, block) in enumerate(s.out):
        await r.buffer(block_id + block)
        await r.take()
        moves += 2
        behind = k + 1 - sum(map(len, r.out)) // size
        if behind > held:
            raise Bad(f"pieces of {step}: the receiver holds back {behind} blocks")
    await r.finish()
    await r.test(s.s.shmac.result)
    if b"".join(r.out) != text:
        raise Bad(f"pieces of {step}: another message")
    return 1, moves, moves


async def long_streams(base, changes, way, blocks, taking):
    """
    Long messages in pieces & groups of packets of several sizes, with
    results taken after each, or all at the end.
    """
    c = cipher_type(base, **changes)(KEY)
    size = c._config.BLOCKSIZE
    text = pattern("count", blocks * size + blocks % 7)
    moves = n = 0
    for step in (size - 1, size, 3 * size + 1, len(text)):
        s = await Sender(c, way).open()
        for at in range(0, len(text), step):
            await s.buffer(text[at : at + step])
            moves += 1
            if taking:
                await s.take()
        await s.finish()
        packets = [i + b for i, b in s.out]
        for group in {1, 5, len(packets)}:
            n += 1
            r = await Receiver(c, way, s.s.salt, s.s.iv).open()
            for at in range(0, len(packets), group):
                await r.buffer(b"".join(packets[at : at + group]))
                moves += 1
                if taking:
                    await r.take()
            await r.finish()
            await r.test(s.s.shmac.result)
            if b"".join(r.out) != text:
                raise Bad(f"{blocks} blocks in steps of {step}, {group}: another message")
    return n, moves, moves


async def block_data(base, changes, way):
    """
    Block ids bound to data of their own, & of every size, are accepted
    with just this data & block, at just this position, & don't disturb.
    """
    c = cipher_type(base, **changes)(KEY)
    cfg = c._config
    s = await Sender(c, way).open()
    text = pattern("count", 4 * cfg.BLOCKSIZE)
    await s.buffer(text)
    gen = iter(s.s) if way == "sync" else s.s.__aiter__()
    aads = (b"", b"a", b"b", b"ab", b"\x00")
    sizes = sorted({cfg.MIN_BLOCK_ID_BYTES, cfg.BLOCK_ID_BYTES, cfg.MAX_BLOCK_ID_BYTES})
    ids, pairs = [], []
    moves = 0

    async def note(pair):
        row = {}
        for aad, size in itertools.product(aads, sizes):
            ask = s.s.shmac.next_block_id if way == "sync" else s.s.shmac.anext_block_id
            got = ask(pair[1], size=size, aad=aad)
            row[aad, size] = got if way == "sync" else await got
        plain = s.s.shmac.next_block_id if way == "sync" else s.s.shmac.anext_block_id
        got = plain(pair[1])
        if (got if way == "sync" else await got) != pair[0]:
            raise Bad("asking for block ids changes them")
        ids.append(row)
        pairs.append(pair)

    if way == "sync":
        for pair in gen:
            await note(pair)
        for pair in s.s.finalize():
            await note(pair)
    else:
        async for pair in gen:
            await note(pair)
        async for pair in s.s.afinalize():
            await note(pair)
    r = await Receiver(c, way, s.s.salt, s.s.iv).open()
    for k, (block_id, block) in enumerate(pairs):
        for j, row in enumerate(ids):
            for ((a, size), given), b in itertools.product(row.items(), aads):
                moves += 1
                good = j == k and a == b
                kw = dict(aad=b) if b else {}
                try:
                    if way == "sync":
                        r.s.shmac.test_next_block_id(given, block, **kw)
                    else:
                        await r.s.shmac.atest_next_block_id(given, block, **kw)
                    ok = True
                except InvalidBlockID:
                    ok = False
                if ok != good:
                    raise Bad(f"the id of block {j} with {a}, for block {k} with {b}: {ok}")
        await r.buffer(block_id + block)
        await r.take()
    await r.finish()
    await r.test(s.s.shmac.result)
    if b"".join(r.out) != text:
        raise Bad("another message after testing block ids")
    return 1, moves, moves


async def together(base, changes, kinds, ways):
    """
    Streams which take their steps in turns, in every order: each gives
    its own message.
    """
    c = cipher_type(base, **changes)(KEY)
    size = c._config.BLOCKSIZE
    texts = [pattern("count", 3 * size), pattern("count", 2 * size + 5)[::-1]]
    steps = 5
    n = traces = 0
    sent = []
    for text in texts:
        s = await Sender(c, "sync").open()
        await s.buffer(text)
        await s.finish()
        sent.append(s)
    for first in itertools.combinations(range(2 * steps), steps):
        users = [None, None]
        done = [0, 0]
        for i in range(2 * steps):
            who = int(i not in first)
            kind, way, text = kinds[who], ways[who], texts[who]
            x, at = users[who], done[who]
            done[who] += 1
            n += 1
            if kind == "S":
                pieces = text[: size + 3], text[size + 3 :]
            else:
                s = sent[who]
                blocks = [b"".join(pair) for pair in s.out]
                pieces = b"".join(blocks[:2]), b"".join(blocks[2:])
            try:
                if at == 0:
                    x = (
                        Sender(c, way)
                        if kind == "S"
                        else Receiver(c, way, s.s.salt, s.s.iv)
                    )
                    users[who] = await x.open()
                elif at == 1:
                    await x.buffer(pieces[0])
                elif at == 2:
                    await x.take(1)
                elif at == 3:
                    await x.buffer(pieces[1])
                    await x.take()
                else:
                    await x.finish()
                    if kind == "R":
                        await x.test(s.s.shmac.result)
            except Exception as e:
                raise Bad(f"{kinds} {ways} {first}: step {at} of {who}: {e!r}") from None
        for kind, x, text in zip(kinds, users, texts):
            got = (
                b"".join(x.out)
                if kind == "R"
                else await receive(
                    c, "sync", x.s.salt, x.s.iv, x.out, x.s.shmac.result
                )
            )
            if got != text:
                raise Bad(f"{kinds} {ways} {first}: {got!r} isn't {text!r}")
        traces += 1
    return n, n, traces


async def woven(base, changes, kinds, second):
    """
    Asynchronous streams whose coroutines interrupt each other anywhere.
    """
    c = cipher_type(base, **changes)(KEY)
    size = c._config.BLOCKSIZE
    texts = [pattern("count", 2 * size), pattern("count", size + 5)[::-1]]
    sent = []
    for text in texts:
        s = await Sender(c, "sync").open()
        await s.buffer(text)
        await s.finish()
        sent.append(s)

    async def send(text, out):
        try:
            x = await Sender(c, "aio").open()
            await x.buffer(text[: size + 3])
            await x.buffer(text[size + 3 :])
            await x.finish()
        except Exception as e:
            x = e
        out.append(x)

    async def get(s, out):
        try:
            x = await Receiver(c, "aio", s.s.salt, s.s.iv).open()
            blocks = [b"".join(pair) for pair in s.out]
            await x.buffer(blocks[0])
            await x.buffer(b"".join(blocks[1:]))
            await x.finish()
            await x.test(s.s.shmac.result)
        except Exception as e:
            x = e
        out.append(x)

    def makers():
        outs = [], []
        pair = [
            send(text, out) if kind == "S" else get(s, out)
            for kind, text, s, out in zip(kinds, texts, sent, outs)
        ]

        def judge(plan):
            for kind, text, (x,) in zip(kinds, texts, outs):
                if isinstance(x, Exception):
                    raise Bad(f"{kinds} woven {plan}: {x!r}")
                if kind == "R":
                    got = b"".join(x.out)
                else:
                    try:
                        receive(
                            c, "sync", x.s.salt, x.s.iv, x.out, x.s.shmac.result
                        ).send(None)
                    except StopIteration as e:
                        got = e.value
                if got != text:
                    raise Bad(f"{kinds} woven {plan}: {got!r} isn't {text!r}")

        return *pair, judge

    plans, steps = weave(makers, second)
    return plans, steps, plans


SECTIONS = dict(
    woven=woven,
    together=together,
    long_streams=long_streams,
    block_data=block_data,
    chunks=chunks,
    groups=groups,
    offers=offers,
    sending=sending,
    progress=progress,
)


def jobs_for(thorough):
    jobs = []
    for base, changes in CONFIGS:
        cfg = cipher_type(base, **changes)._config
        plain = not changes
        for kinds in ("SS", "SR", "RS", "RR") if plain or thorough else ():
            for ways in itertools.product(("sync", "aio"), repeat=2):
                jobs.append(("together", (base, changes, kinds, ways)))
            jobs.append(("woven", (base, changes, kinds, True)))
        for way in ("sync", "aio"):
            few = not plain and not thorough
            depth = 3 if (plain and way == "sync") or thorough else 2
            count = len(piece_sizes(cfg, few)) * 3
            for first in range(count):
                jobs.append(("chunks", (base, changes, way, first, depth, few)))
            jobs.append(("block_data", (base, changes, way)))
            for blocks in (15, 33, 70, 140, 300, *[700, 1100][: 2 * thorough]):
                for taking in (0, 1):
                    jobs.append(("long_streams", (base, changes, way, blocks, taking)))
            size = cfg.BLOCKSIZE
            for step in (size // 3, size - 1, size, size + 1, 2 * size, 5 * size):
                jobs.append(("progress", (base, changes, way, step)))
            jobs.append(
                ("groups", (base, changes, way, 5 if thorough else 4))
            )
            for blocks in (1, 2, 3) if plain or thorough else (2,):
                blocks += cfg.MIN_PADDING_BLOCKS
                if blocks > 3 and not thorough:
                    continue
                probe = 2 if way == "aio" or not plain else 3
                probe += 1 if thorough else 0
                n = 8
                if blocks == 3 and probe > 2 and not thorough:
                    probe = 2
                for first in range(n):
                    jobs.append(
                        (
                            "offers",
                            (base, changes, way, blocks, probe, first, n),
                        )
                    )
            for first in range(8):
                jobs.append(
                    (
                        "sending",
                        (base, changes, way, 4 if plain or thorough else 3, first),
                    )
                )
    return jobs


def work(job):
    name, args = job
    boot.CTL.urandom = Sized.counter(7)
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0, 0), str(e)


def main():
    check = Check("C07")
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((traces, moves, states), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=states, transitions=moves, traces=traces)
        check.part(name, histories=traces, calls=moves)
        if problem and bad < 5:
            bad += 1
            check.violation(
                f"{name}:{args[:3]}".replace(" ", ""),
                problem,
                dict(job=[name, args]),
            )
    for job in jobs[:: max(1, len(jobs) // 8)]:
        check.sample(repr(job)[:300])
    return check.finish()


def replay(data):
    out = work(data["job"])
    print(out)
    return 1 if out[1] else 0
