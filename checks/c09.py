"""
C09: no encryption context is ever used twice.
"""

import asyncio
import itertools

from mc import boot
from mc.report import Check, pmap
from .cipherlib import KEY, Sized, call, cipher_type, pattern, split

A = boot.load()
CTL = boot.CTL
AAD = b"context"
T0 = 1_800_000_000 * 10**9
CONFIGS = [
    ("C", {}),
    ("S", {}),
    ("C", dict(blocksize=64, min_padding_blocks=1)),
    ("S", dict(blocksize=48)),
]


class Bad(Exception):
    pass


# ---- batches of encryptions -------------------------------------------


class Source:
    """
    System randomness & clock with chosen parts standing still: draws of
    one size may be frozen, the rest never repeats.
    """

    def __init__(self, frozen_sizes, tick):
        self.frozen = frozen_sizes
        self.tick = tick
        self.flow = Sized.counter(11)
        self.now = T0

    def urandom(self, n):
        if self.frozen == "all" or n in self.frozen:
            return b"\x5a" * n
        return self.flow(n)

    def time_ns(self):
        return self.now

    def step(self):
        self.now += self.tick


def enc_bytes(c, m, salt):
    return c.bytes_encrypt(m, salt=salt, aad=AAD)


def enc_abytes(c, m, salt):
    return c.abytes_encrypt(m, salt=salt, aad=AAD)


def enc_stream(c, m, salt):
    s = c.stream_encrypt(salt=salt, aad=AAD)
    out = [*s.buffer(m), *s.finalize()]
    return s.shmac.result + s.salt + s.iv + b"".join(b for _, b in out)


async def enc_astream(c, m, salt):
    s = await c.astream_encrypt(salt=salt, aad=AAD)
    await s.abuffer(m)
    out = [x async for x in s] + [x async for x in s.afinalize()]
    return s.shmac.result + s.salt + s.iv + b"".join(b for _, b in out)


WAYS = dict(
    bytes=enc_bytes, abytes=enc_abytes, stream=enc_stream, astream=enc_astream
)


def regions(cfg, m):
    """
    Where the known plaintext lies in each block: (block, start, end,
    offset of the message).
    """
    b, h = cfg.BLOCKSIZE, cfg.INNER_HEADER_BYTES
    out = []
    for k in range((h + len(m)) // b + 1):
        lo, hi = max(h, k * b), min(h + len(m), (k + 1) * b)
        if hi - lo >= 8:
            out.append((k, lo - k * b, hi - k * b, lo - h))
    return out


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def unrelated(c, seq, made):
    cfg = c._config
    ivs = [split(c, ct)[2] for _, ct in made]
    tags = [ct[: cfg.SHMAC_BYTES] for _, ct in made]
    if len(set(tags)) != len(tags):
        raise Bad(f"{seq}: two messages have the same tag")
    blocks = {}
    for i, (m, ct) in enumerate(made):
        body = split(c, ct)[3]
        for k, block in enumerate(body):
            if block in blocks:
                raise Bad(
                    f"{seq}: block {k} of message {i} repeats "
                    f"{blocks[block]}"
                )
            blocks[block] = (k, i)
    for (i, (m1, c1)), (j, (m2, c2)) in itertools.combinations(
        enumerate(made), 2
    ):
        b1, b2 = split(c, c1)[3], split(c, c2)[3]
        for k, lo, hi, at in regions(cfg, m1 if len(m1) < len(m2) else m2):
            x = xor(b1[k][lo:hi], b2[k][lo:hi])
            y = xor(m1[at : at + hi - lo], m2[at : at + hi - lo])
            if x == y:
                raise Bad(f"{seq}: {i} & {j} share the key stream of block {k}")
    return ivs


async def batches(base, changes, freeze, first, depth):
    """
    Every sequence of encryptions under one key, salt & associated data.
    """
    kind = cipher_type(base, **changes)
    if kind._config.IV_BYTES == kind._config.SIV_KEY_BYTES:
        # draws are told apart by their size
        kind = cipher_type(base, **changes, iv_bytes=16)
    c = kind(KEY)
    cfg = c._config
    n = 2 * cfg.BLOCKSIZE
    messages = [pattern("count", n), pattern("zero", n), pattern("zero", n + 1)]
    salt = b"\x07" * cfg.SALT_BYTES
    ops = list(itertools.product(WAYS, range(len(messages))))
    traces = moves = 0
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (ops[first], *rest)
        # which of the three fresh inputs are allowed to stand still
        frozen, tick = {
            "none": ((), 0),
            "iv": ((cfg.IV_BYTES,), 0),
            "siv": ((cfg.SIV_KEY_BYTES,), 0),
            "all but clock": ("all", 10**9),
        }[freeze]
        src = Source(frozen, tick)
        CTL.urandom, CTL.time_ns = src.urandom, src.time_ns
        made = []
        try:
            for way, m in seq:
                ct = await call(WAYS[way], c, messages[m], salt)
                made.append((messages[m], ct))
                src.step()
                moves += 1
        finally:
            CTL.urandom = CTL.time_ns = None
        ivs = unrelated(c, seq, made)
        if freeze in ("none", "siv") and len(set(ivs)) != len(ivs):
            raise Bad(f"{seq}: an initialization value was used twice")
        traces += 1
    return traces, moves, traces


def streams_differ(c, what, made):
    """
    As `unrelated` says, for many: no key stream appears twice.
    """
    seen, tags, ivs = {}, set(), set()
    for i, (m, ct) in enumerate(made):
        body = split(c, ct)[3]
        tags.add(ct[: c._config.SHMAC_BYTES])
        ivs.add(split(c, ct)[2])
        for k, lo, hi, at in regions(c._config, m):
            flow = xor(body[k][lo:hi], m[at : at + hi - lo])[:24]
            if len(flow) < 24:
                continue
            if (lo, flow) in seen:
                raise Bad(f"{what}: {i} & {seen[lo, flow]} share a key stream")
            seen[lo, flow] = (i, k)
    if len(tags) != len(made):
        raise Bad(f"{what}: {len(made)} messages have {len(tags)} tags")
    return ivs


async def long_run(base, changes, freeze, way, count):
    """
    One key object used many times, & by many users at the same time.
    """
    kind = cipher_type(base, **changes)
    if kind._config.IV_BYTES == kind._config.SIV_KEY_BYTES:
        kind = cipher_type(base, **changes, iv_bytes=16)
    c = kind(KEY)
    cfg = c._config
    m = pattern("count", 2 * cfg.BLOCKSIZE)
    salt = b"\x07" * cfg.SALT_BYTES
    frozen, tick = {
        "none": ((), 0),
        "iv": ((cfg.IV_BYTES,), 0),
        "siv": ((cfg.SIV_KEY_BYTES,), 0),
        "all but clock": ("all", 10**9),
    }[freeze]
    src = Source(frozen, tick)
    CTL.urandom, CTL.time_ns = src.urandom, src.time_ns
    made = []
    try:
        if way == "at once":
            made = await asyncio.gather(
                *(c.abytes_encrypt(m, salt=salt, aad=AAD) for _ in range(count))
            )
        elif way == "side by side":
            open_ones = [c.stream_encrypt(salt=salt, aad=AAD) for _ in range(count)]
            out = [[] for _ in open_ones]
            for i in range(0, len(m), 50):
                for s, blocks in zip(open_ones, out):
                    blocks += s.buffer(m[i : i + 50])
            for s, blocks in zip(open_ones, out):
                blocks += s.finalize()
                made.append(
                    s.shmac.result + s.salt + s.iv + b"".join(b for _, b in blocks)
                )
        else:
            for _ in range(count):
                made.append(await call(WAYS[way], c, m, salt))
                src.step()
    finally:
        CTL.urandom = CTL.time_ns = None
    what = f"{count} {way} {freeze}"
    ivs = streams_differ(c, what, [(m, ct) for ct in made])
    if freeze in ("none", "siv") and len(ivs) != count:
        raise Bad(f"{what}: {len(ivs)} initialization values")
    return 1, count, count


async def formats(base):
    """
    Tokens & JSON twice in a row; nobody can choose the value that makes
    an encryption unique.
    """
    c = cipher_type(base)(KEY)
    cfg = c._config
    moves = 0
    src = Source((), 0)
    CTL.urandom, CTL.time_ns = src.urandom, src.time_ns
    try:
        for f, data in (
            (c.json_encrypt, {"a": "b" * 300}),
            (c.ajson_encrypt, {"a": "b" * 300}),
            (c.make_token, b"a" * 300),
            (c.amake_token, b"a" * 300),
        ):
            made = [await call(f, data, aad=AAD) for _ in range(40)]
            moves += 40
            if len({x[-60:] for x in made}) != 40 or len(set(made)) != 40:
                raise Bad(f"{f.__name__} repeated itself")
        made = [
            await call(f, b"m" * 300, salt=bytes(cfg.SALT_BYTES), aad=AAD)
            for f in (c.bytes_encrypt, c.abytes_encrypt)
            for _ in range(200)
        ]
        moves += 400
        ivs = [split(c, x)[2] for x in made]
        if len(set(ivs)) != len(ivs):
            raise Bad("an initialization value was used twice")
        # salts are fresh unless given
        made = [c.bytes_encrypt(b"") for _ in range(50)]
        if len({split(c, x)[1] for x in made}) != 50:
            raise Bad("a salt was used twice")
    finally:
        CTL.urandom = CTL.time_ns = None
    iv = bytes(cfg.IV_BYTES)
    for f in (
        c.bytes_encrypt,
        c.abytes_encrypt,
        c.json_encrypt,
        c.ajson_encrypt,
        c.make_token,
        c.amake_token,
    ):
        moves += 1
        try:
            await call(f, b"data" if "json" not in f.__name__ else 1, iv=iv)
        except TypeError:
            continue
        raise Bad(f"{f.__name__} let the caller choose the iv")
    for f in (c.stream_encrypt, c.astream_encrypt):
        moves += 1
        try:
            await call(f, iv=iv)
        except TypeError:
            continue
        raise Bad(f"{f.__name__} let the caller choose the iv")
    return 1, moves, moves


# ---- the protocol of one-time key material ----------------------------

OPS = (
    "mode",
    "amode",
    "hmac1",
    "hmac2",
    "enc1",
    "dec1",
    "enc2",
    "dec2",
    "run_enc1",
    "run_dec1",
    "run_enc2",
    "arun_enc1",
    "arun_dec1",
    "final1",
    "afinal1",
    "result1",
    "test1",
)


class Model:
    """
    What has to be refused, what has to work; `None` is left open.
    """

    def __init__(self, given_iv):
        self.given_iv = given_iv
        self.mode = None
        self.made = [False, False]
        self.way = [None, None]
        self.used = False
        self.final = [False, False]

    def step(self, op):
        """
        True: must succeed. False: must raise.
        """
        k = 1 if op.endswith("2") else 0
        name = op.rstrip("12")
        if name in ("mode", "amode"):
            if self.mode:
                return False
            self.mode = name
            return True
        if name == "hmac":
            if self.made[k]:
                return None  # the harness doesn't replace it
            if not self.mode:
                return False
            self.made[k] = True
            return True
        if not self.made[k]:
            return None
        if name in ("enc", "dec"):
            if self.way[k] or (name == "enc") == self.given_iv:
                return False
            self.way[k] = name
            return True
        if name in ("run_enc", "run_dec", "arun_enc", "arun_dec"):
            if self.used:
                return False
            self.used = True  # even a wrong attempt spends it
            return (
                self.way[k] == name[-3:]
                and self.mode == ("amode" if name[0] == "a" else "mode")
                and not self.final[k]
            )
        if name in ("final", "afinal"):
            if self.final[k]:
                return False
            self.final[k] = True
            return True
        if name == "result":
            return self.final[k]
        if name == "test":
            return False  # a made up tag is never right
        raise ValueError(op)


def sequences(given_iv, prefix, depth):
    """
    All sequences of calls about which the model has an opinion.
    """
    if len(prefix) == depth:
        yield prefix
        return
    for op in OPS:
        model = Model(given_iv)
        for done in prefix:
            model.step(done)
        if model.step(op) is not None:
            yield from sequences(given_iv, (*prefix, op), depth)


async def protocol(base, given_iv, depth, first):
    c = cipher_type(base)(KEY)
    cfg = c._config
    junction = c._Junction
    b = cfg.BLOCKSIZE
    traces = moves = 0
    states = set()
    wrong_tag = bytes(cfg.SHMAC_BYTES)
    blocks = [pattern("count", b), pattern("ones", b)]
    iv = bytes(cfg.IV_BYTES) if given_iv else None

    def feed():
        yield from blocks

    async def source():
        for block in blocks:
            yield block

    for seq in sequences(given_iv, tuple(first), depth):
        model = Model(given_iv)
        bundle = c._KeyAADBundle(
            c._kdfs, salt=bytes(cfg.SALT_BYTES), aad=AAD, iv=iv
        )
        hmacs = [None, None]
        for at, op in enumerate(seq):
            expected = model.step(op)
            moves += 1
            k = 1 if op.endswith("2") else 0
            name = op.rstrip("12")
            h = hmacs[k]
            try:
                if name == "mode":
                    bundle.sync_mode()
                elif name == "amode":
                    await bundle.async_mode()
                elif name == "hmac":
                    hmacs[k] = c._StreamHMAC(bundle)
                elif name == "enc":
                    h._for_encryption()
                elif name == "dec":
                    h._for_decryption()
                elif name == "run_enc":
                    next(iter(junction.bytes_encipher(feed(), shmac=h)))
                elif name == "run_dec":
                    next(iter(junction.bytes_decipher(feed(), shmac=h)))
                elif name == "arun_enc":
                    await anext(
                        aiter(junction.abytes_encipher(source(), shmac=h))
                    )
                elif name == "arun_dec":
                    await anext(
                        aiter(junction.abytes_decipher(source(), shmac=h))
                    )
                elif name == "final":
                    h.finalize()
                elif name == "afinal":
                    await h.afinalize()
                elif name == "result":
                    h.result
                elif name == "test":
                    h.test_shmac(wrong_tag)
                happened = True
                error = None
            except Exception as e:
                happened, error = False, e
            if happened != expected:
                raise Bad(
                    f"{seq[: at + 1]}: {op} "
                    + ("was accepted" if happened else f"failed: {error!r}")
                )
            states.add(
                (
                    model.mode,
                    *model.made,
                    *model.way,
                    model.used,
                    *model.final,
                    op,
                )
            )
        traces += 1
    return traces, moves, len(states)


async def block_ids(base, way):
    """
    Sizes of block ids & states in which they may be asked for.
    """
    c = cipher_type(base)(KEY)
    cfg = c._config
    moves = 0

    async def ask(h, size, aad=b""):
        if way == "sync":
            return h.next_block_id(bytes(cfg.BLOCKSIZE), size=size, aad=aad)
        return await h.anext_block_id(bytes(cfg.BLOCKSIZE), size=size, aad=aad)

    async def fresh(data=b"q" * 600):
        if way == "sync":
            s = c.stream_encrypt(aad=AAD)
            s.buffer(data)
            list(s)
        else:
            s = await c.astream_encrypt(aad=AAD)
            await s.abuffer(data)
            async for _ in s:
                pass
        return s

    s = await fresh()
    seen = set()
    for size in range(1, 300):
        moves += 1
        legal = cfg.MIN_BLOCK_ID_BYTES <= size <= cfg.MAX_BLOCK_ID_BYTES
        try:
            out = await ask(s.shmac, size)
        except Exception as e:
            if legal:
                raise Bad(f"block id of {size} bytes failed: {e!r}")
            continue
        if not legal:
            raise Bad(f"block id of {size} bytes was given out")
        if len(out) != size:
            raise Bad(f"block id of {size} bytes has {len(out)}")
        if any(out.startswith(x) for x in seen):
            raise Bad("block ids of different sizes are related")
        seen.add(out)
    for aad in (b"a", b"ab", b"b", b"\x00", b"\x00\x00"):
        out = await ask(s.shmac, cfg.BLOCK_ID_BYTES, aad)
        moves += 1
        if out in seen:
            raise Bad("block ids don't depend on their associated data")
        seen.add(out)
    if way == "sync":
        list(s.finalize())
    else:
        async for _ in s.afinalize():
            pass
    try:
        await ask(s.shmac, cfg.BLOCK_ID_BYTES)
    except Exception:
        pass
    else:
        raise Bad("a block id was given out after finalization")
    return 1, moves, moves


SECTIONS = dict(
    batches=batches,
    long_run=long_run,
    formats=formats,
    protocol=protocol,
    block_ids=block_ids,
)


def jobs_for(thorough):
    jobs = []
    for base, changes in CONFIGS:
        for freeze in ("none", "iv", "siv", "all but clock"):
            depth = 3 if thorough or not changes else 2
            for first in range(12):
                jobs.append(("batches", (base, changes, freeze, first, depth)))
    for base, changes in CONFIGS:
        for freeze in ("none", "iv", "siv"):
            for way in ("at once", "side by side"):
                for count in (5, 33, 130):
                    jobs.append(("long_run", (base, changes, freeze, way, count)))
        for freeze in ("none", "iv", "siv", "all but clock"):
            for way in WAYS:
                count = 5000 if thorough else 300
                jobs.append(("long_run", (base, changes, freeze, way, count)))
    for base in "CS":
        jobs.append(("formats", (base,)))
        for way in ("sync", "aio"):
            jobs.append(("block_ids", (base, way)))
        for given in (False, True):
            depth = 7 if thorough else 6
            for first in sequences(given, (), 3):
                jobs.append(("protocol", (base, given, depth, first)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0, 0), str(e)


def main():
    check = Check("C09")
    check.assumptions = [
        "the system's random source doesn't repeat unless a scenario says "
        "so; then the clock or the other draws advance",
    ]
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((traces, moves, states), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=states, transitions=moves, traces=traces)
        check.part(name, histories=traces, calls=moves)
        if problem and bad < 5:
            bad += 1
            check.violation(
                f"{name}:{args[:3]}".replace(" ", ""),
                problem,
                dict(job=[name, args]),
            )
    for job in jobs[:: max(1, len(jobs) // 8)]:
        check.sample(repr(job)[:300])
    return check.finish()


def replay(data):
    out = work(data["job"])
    print(out)
    return 1 if out[1] else 0
