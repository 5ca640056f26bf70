"""
Shared by the cipher checks: configurations, patterns & every way to
encrypt & decrypt a message.
"""

import hashlib
import itertools

from mc import boot

A = boot.load()
from aiootp.ciphers.chunky_2048_config import (  # noqa: E402
    _dual_output_shake_config_inputs,
)
from aiootp.ciphers.slick_256_config import (  # noqa: E402
    _shake_permute_config_inputs,
)

Chunky2048, Slick256 = A.Chunky2048, A.Slick256
KEY = bytes(range(64))
KEY2 = bytes(range(1, 65))
_made = {}


def cipher_type(base, **changes):
    """
    The base cipher type, or a subtype with a changed configuration.
    `None` if the configuration is refused.
    """
    if not changes:
        return {"C": Chunky2048, "S": Slick256}[base]
    name = (base, tuple(sorted(changes.items())))
    if name not in _made:
        kind, inputs = {
            "C": (Chunky2048, _dual_output_shake_config_inputs),
            "S": (Slick256, _shake_permute_config_inputs),
        }[base]
        try:
            config = type(kind._config)(
                **inputs(config_id=hashlib.sha256(repr(name).encode()).digest(), **changes)
            )
        except (ValueError, KeyError):
            _made[name] = None
        else:
            _made[name] = type(
                f"{kind.__name__}X", (kind,), dict(_config=config, __slots__=())
            )
    return _made[name]


def custom_configs():
    out = []
    for base in "CS":
        for n in range(1, 9):
            out.append((base, dict(min_padding_blocks=n)))
        for n in (4, 5, 6, 7, 8, 10, 12):
            out.append((base, dict(timestamp_bytes=n)))
        for n in (0, 1, 2, 3, 4, 6, 8, 12, 16, 20, 24, 28, 32, 60, 100):
            out.append((base, dict(siv_key_bytes=n)))
        for n in (16, 20, 24, 28, 32):
            out.append((base, dict(shmac_bytes=n)))
            out.append((base, dict(block_id_bytes=n)))
        for n in (1, 4, 7, 8, 16, 32):
            out.append((base, dict(salt_bytes=n)))
            out.append((base, dict(iv_bytes=n)))
    for n in (38, 40, 48, 64, 100, 128, 200, 254, 258, 260, 300, 320):
        out.append(("C", dict(blocksize=n)))
        out.append(("C", dict(blocksize=n, min_padding_blocks=1)))
    for n in (48, 64):
        out.append(("S", dict(blocksize=n)))
        out.append(("S", dict(blocksize=n, min_padding_blocks=4)))
    out = [(b, c) for b, c in out if cipher_type(b, **c) is not None]
    return out


def mixed_configs():
    """
    Configurations with several changes at once.
    """
    out = []
    for base, sizes in (("C", (None, 64, 130, 300)), ("S", (None, 48, 64))):
        for size, padding, (stamp, siv), (salt, iv), (tag, bid) in itertools.product(
            sizes,
            (1, 3),
            ((4, 12), (8, 4), (12, 20)),
            ((8, 8), (16, 4), (4, 24)),
            ((32, 24), (20, 32)),
        ):
            changes = dict(
                min_padding_blocks=padding,
                timestamp_bytes=stamp,
                siv_key_bytes=siv,
                salt_bytes=salt,
                iv_bytes=iv,
                shmac_bytes=tag,
                block_id_bytes=bid,
            )
            if size:
                changes["blocksize"] = size
            out.append((base, changes))
    return [(b, c) for b, c in out if cipher_type(b, **c) is not None]


def pattern(kind, n):
    if kind == "zero":
        return bytes(n)
    if kind == "ones":
        return b"\xff" * n
    if kind == "count":
        return bytes(i % 251 for i in range(n))
    if kind == "low":
        return b"\x01" * n
    if kind == "tail0":
        return (b"\x07" * n)[: max(0, n - 3)] + bytes(min(n, 3))
    raise ValueError(kind)


class Sized:
    """
    Deterministic stand-ins for the system's random source.
    """

    @staticmethod
    def const(byte):
        return lambda n: bytes([byte]) * n

    @staticmethod
    def counter(start=0):
        state = [start]

        def draw(n):
            out = []
            for _ in range(n):
                state[0] = (state[0] * 1103515245 + 12345) % 2**31
                out.append((state[0] >> 16) & 0xFF)
            return bytes(out)

        return draw


# ---- ways to encrypt: return a whole ciphertext -----------------------


def enc_sync(c, data, aad, salt=None):
    return c.bytes_encrypt(data, salt=salt, aad=aad)


async def enc_async(c, data, aad, salt=None):
    return await c.abytes_encrypt(data, salt=salt, aad=aad)


def stream_blocks(stream, data, step=None):
    """
    (block id, block) pairs of a message given in pieces of `step`.
    """
    out = []
    if step is None:
        out.extend(stream.buffer(data))
    else:
        for i in range(0, len(data), step):
            out.extend(stream.buffer(data[i : i + step]))
    out.extend(stream.finalize())
    return out


async def astream_blocks(stream, data, step=None):
    out = []
    if step is None:
        pieces = [data]
    else:
        pieces = [data[i : i + step] for i in range(0, len(data), step)]
    for piece in pieces:
        async for pair in await stream.abuffer(piece):
            out.append(pair)
    async for pair in stream.afinalize():
        out.append(pair)
    return out


def join(stream, pairs):
    return b"".join(
        [stream.shmac.result, stream.salt, stream.iv, *(b for _, b in pairs)]
    )


def enc_stream(c, data, aad, salt=None):
    s = c.stream_encrypt(salt=salt, aad=aad)
    return join(s, stream_blocks(s, data))


async def enc_astream(c, data, aad, salt=None):
    s = await c.astream_encrypt(salt=salt, aad=aad)
    return join(s, await astream_blocks(s, data))


# ---- ways to decrypt a whole ciphertext -------------------------------


def dec_sync(c, ct, aad, ttl=None):
    return c.bytes_decrypt(ct, aad=aad, ttl=ttl)


async def dec_async(c, ct, aad, ttl=None):
    return await c.abytes_decrypt(ct, aad=aad, ttl=ttl)


def split(c, ct):
    """
    shmac, salt, iv, [block, ...]
    """
    cfg = c._config
    a = cfg.SHMAC_BYTES
    b = a + cfg.SALT_BYTES
    d = b + cfg.IV_BYTES
    body = ct[d:]
    n = cfg.BLOCKSIZE
    return (
        ct[:a],
        ct[a:b],
        ct[b:d],
        [body[i : i + n] for i in range(0, len(body), n)],
    )


def dec_stream(c, ct, aad, ttl=None):
    tag, salt, iv, blocks = split(c, ct)
    s = c.stream_decrypt(salt=salt, aad=aad, iv=iv, ttl=ttl)
    out = []
    for block in blocks:
        out.extend(s.buffer(s.shmac.next_block_id(block) + block))
    out.extend(s.finalize())
    s.shmac.test_shmac(tag)
    return b"".join(out)


async def dec_astream(c, ct, aad, ttl=None):
    tag, salt, iv, blocks = split(c, ct)
    s = await c.astream_decrypt(salt=salt, aad=aad, iv=iv, ttl=ttl)
    out = []
    for block in blocks:
        await s.abuffer(await s.shmac.anext_block_id(block) + block)
        async for piece in s:
            out.append(piece)
    async for piece in s.afinalize():
        out.append(piece)
    await s.shmac.atest_shmac(tag)
    return b"".join(out)


ENC = dict(sync=enc_sync, aio=enc_async, stream=enc_stream, astream=enc_astream)
DEC = dict(sync=dec_sync, aio=dec_async, stream=dec_stream, astream=dec_astream)


async def call(f, *a, **kw):
    out = f(*a, **kw)
    if hasattr(out, "__await__"):
        return await out
    return out


class Waits(Exception):
    """
    A coroutine awaits more than its next turn.
    """


def step(co):
    """
    The coroutine's next turn. True when it's done.
    """
    try:
        if co.send(None) is not None:
            raise Waits()
    except StopIteration:
        return True
    return False


def weave(makers, second=True):
    """
    Both coroutines advance in turns: the first `k` steps, the second `m`,
    then the first to its end & the other to its own, for every `k` & `m`.
    With `second` also those where the first is interrupted once more,
    after any one of the steps left.

    `makers()` gives the pair of coroutines & a function which judges the
    plan when both are done. Gives the number of plans & of steps.
    """
    lengths = []
    for who in (0, 1):
        *pair, judge = makers()
        n = 1
        while not step(pair[who]):
            n += 1
        lengths.append(n)
        pair[1 - who].close()
    plans = steps = 0
    for k in range(lengths[0]):
        for m in range(1, lengths[1] + 1):
            turns = range(0, lengths[0] - k, 3) if second and m < lengths[1] else (0,)
            for j in turns:
                *pair, judge = makers()
                done = [False, False]
                for who, times in ((0, k), (1, m), (0, j), (1, 10**6 if j else 0), (0, 10**6), (1, 10**6)):
                    while times and not done[who]:
                        done[who] = step(pair[who])
                        times -= 1
                        steps += 1
                judge((k, m, j))
                plans += 1
    return plans, steps
