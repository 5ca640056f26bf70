"""
C06: no altered or misattributed ciphertext is ever accepted.
"""

import asyncio
import base64
import collections
import itertools

from mc import boot
from mc.report import Check, pmap
from .spellings import spellings
from .cipherlib import (
    KEY,
    call,
    cipher_type,
    dec_async,
    dec_sync,
    enc_async,
    enc_sync,
    pattern,
    split,
)

A = boot.load()
AAD = b"associated data"
CONFIGS = [
    ("C", {}),
    ("S", {}),
    ("C", dict(blocksize=64)),
    ("S", dict(blocksize=48)),
    ("C", dict(min_padding_blocks=1)),
    ("C", dict(shmac_bytes=16)),
    ("S", dict(iv_bytes=16)),
]


KINDS = collections.Counter()


class Bad(Exception):
    pass


async def accept(f, *a, **kw):
    """
    The genuine counterpart must be accepted.
    """
    try:
        await call(f, *a, **kw)
    except Exception as e:
        raise Bad(f"a genuine message was refused: {e!r}")


def cfg_of(base, changes):
    return cipher_type(base, **changes)._config


def message(cfg, blocks):
    """
    A plaintext which makes that many blocks.
    """
    size = blocks * cfg.BLOCKSIZE - cfg.INNER_HEADER_BYTES - cfg.SENTINEL_BYTES
    return pattern("count", max(0, size - 3))


async def refuse(what, f, *a, **kw):
    """
    The call must raise.
    """
    try:
        out = await call(f, *a, **kw)
    except Exception as e:
        KINDS[type(e).__name__] += 1
        return 1
    raise Bad(f"{what}: accepted, gave {out!r:.60}")


def flips(raw, lo, hi, full):
    """
    Every single byte alteration in a range of positions.
    """
    for i in range(lo, min(hi, len(raw))):
        for m in range(1, 256) if full else [1 << b for b in range(8)]:
            out = bytearray(raw)
            out[i] ^= m
            yield f"byte {i} xor {m}", bytes(out)


async def bits(base, changes, blocks, lo, hi, full, way):
    c = cipher_type(base, **changes)(KEY)
    ct = enc_sync(c, message(c._config, blocks), AAD)
    dec = dec_sync if way == "sync" else dec_async
    n = 0
    await accept(dec, c, ct, AAD)
    for what, bad in flips(ct, lo, hi, full):
        n += await refuse(what, dec, c, bad, AAD)
    return n


async def sizes(base, changes, blocks, way):
    """
    Truncations from both ends, extensions, insertions & removals.
    """
    c = cipher_type(base, **changes)(KEY)
    cfg = c._config
    ct = await call(
        enc_sync if way == "sync" else enc_async, c, message(cfg, blocks), AAD
    )
    dec = dec_sync if way == "sync" else dec_async
    n = 0
    await accept(dec, c, ct, AAD)
    for k in range(len(ct)):
        n += await refuse(f"first {k} bytes", dec, c, ct[:k], AAD)
        n += await refuse(f"without the first {k + 1}", dec, c, ct[k + 1 :], AAD)
    b = cfg.BLOCKSIZE
    for k in (1, 2, 8, 16, b - 1, b, b + 1, 2 * b):
        for fill in (b"\x00", b"\xff", ct[-1:]):
            n += await refuse(f"{k} more", dec, c, ct + fill * k, AAD)
            n += await refuse(f"{k} before", dec, c, fill * k + ct, AAD)
    n += await refuse("doubled", dec, c, ct + ct, AAD)
    n += await refuse("body doubled", dec, c, ct + ct[cfg.HEADER_BYTES :], AAD)
    for k in range(0, len(ct), max(1, len(ct) // 97)):
        n += await refuse(f"one block gone at {k}", dec, c, ct[:k] + ct[k + b :], AAD)
        n += await refuse(
            f"one block added at {k}", dec, c, ct[:k] + bytes(b) + ct[k:], AAD
        )
    return n


async def shuffles(base, changes, blocks, way):
    """
    Every sequence of the message's own blocks up to one more than its
    length, except the right one.
    """
    c = cipher_type(base, **changes)(KEY)
    ct = enc_sync(c, message(c._config, blocks), AAD)
    tag, salt, iv, body = split(c, ct)
    assert len(body) == blocks or c._config.MIN_PADDING_BLOCKS
    dec = dec_sync if way == "sync" else dec_async
    n = 0
    await accept(dec, c, ct, AAD)
    for count in range(1, len(body) + 2):
        for order in itertools.product(range(len(body)), repeat=count):
            if order == tuple(range(len(body))):
                continue
            bad = tag + salt + iv + b"".join(body[i] for i in order)
            n += await refuse(f"blocks {order}", dec, c, bad, AAD)
    return n


async def splices(base, changes, way):
    """
    Every mix of the parts of three genuine messages: two under the same
    salt, one under another.
    """
    c = cipher_type(base, **changes)(KEY)
    cfg = c._config
    dec = dec_sync if way == "sync" else dec_async
    text = message(cfg, 2)
    salt = bytes(cfg.SALT_BYTES)
    ms = [
        split(c, enc_sync(c, text, AAD, salt)),
        split(c, enc_sync(c, text, AAD, salt)),
        split(c, enc_sync(c, text[:-1] + b"\x00", AAD)),
    ]
    n = 0
    for pick in itertools.product(range(3), repeat=5):
        parts = [
            ms[pick[0]][0],
            ms[pick[1]][1],
            ms[pick[2]][2],
            ms[pick[3]][3][0],
            *ms[pick[4]][3][1:],
        ]
        raw = b"".join(parts)
        if any(raw == b"".join([*m[:3], *m[3]]) for m in ms):
            await accept(dec, c, raw, AAD)
            continue
        n += await refuse(f"mix {pick}", dec, c, raw, AAD)
    return n


def other_keys():
    text, *others = spellings(spellings()[0] * 3)
    yield text, [(f"key as {x!r}", x) for x in others if len(x) >= 64]
    for size in (64, 65, 128, 200, 500, 3000):
        key = pattern("count", size)
        yield key, [
            (f"key of {size}, byte {i}", key[:i] + bytes([key[i] ^ m]) + key[i + 1 :])
            for i in (range(size) if size < 1000 else range(0, size, 31))
            for m in (1, 0x80)
        ] + [
            (f"key of {size}, {x}", k)
            for x, k in (
                ("longer by 0", key + b"\x00"),
                ("longer by 00", key + b"\x00" * 2),
                ("0 before", b"\x00" + key),
                ("doubled", key + key),
                ("shorter", key[:-1]),
                ("shorter in front", key[1:]),
                ("reversed", key[::-1]),
                ("rotated", key[1:] + key[:1]),
            )
            if len(k) >= 64
        ]


def other_aads():
    text, *others = spellings()
    yield text, [(f"aad as {x!r}", x) for x in others]
    for size in (0, 1, 2, 8, 31, 64, 300, 5000, 70_000):
        aad = pattern("count", size)
        spots = range(size) if size <= 300 else (0, 255, 256, 4095, size // 2, size - 1)
        yield aad, [
            (f"aad of {size}, byte {i}", aad[:i] + bytes([aad[i] ^ m]) + aad[i + 1 :])
            for i in spots
            for m in (1, 0x80)
        ] + [
            (f"aad of {size}, {x}", a)
            for x, a in (
                ("longer by 0", aad + b"\x00"),
                ("longer by 1", aad + b"\x01"),
                ("0 before", b"\x00" + aad),
                ("empty", b""),
                ("shorter", aad[:-1]),
                ("shorter in front", aad[1:]),
                ("doubled", aad + aad),
                ("reversed", aad[::-1]),
            )
            if a != aad
        ]


async def context(base, changes, way):
    kind = cipher_type(base, **changes)
    dec = dec_sync if way == "sync" else dec_async
    enc = enc_sync if way == "sync" else enc_async
    n = 0
    for key, others in other_keys():
        ct = await call(enc, kind(key), b"text", AAD)
        await accept(dec, kind(key), ct, AAD)
        for what, bad in others:
            n += await refuse(what, dec, kind(bad), ct, AAD)
    c = kind(KEY)
    for aad, others in other_aads():
        ct = await call(enc, c, b"text", aad)
        await accept(dec, c, ct, aad)
        for what, bad in others:
            n += await refuse(what, dec, c, ct, bad)
    # parts moving over the borders between salt, associated data & iv
    cfg = c._config
    ct = await call(enc, c, b"text", b"")
    tag, salt, iv, body = split(c, ct)
    body = b"".join(body)
    for k in range(1, cfg.SALT_BYTES):
        bad = tag + salt[k:] + salt[:k] + iv + body
        if salt[k:] + salt[:k] != salt:
            n += await refuse(f"salt rotated {k}", dec, c, bad, b"")
    n += await refuse("salt & iv swapped", dec, c, tag + iv + salt + body, b"")
    n += await refuse("salt as aad", dec, c, ct, salt)
    n += await refuse("iv as aad", dec, c, ct, iv)
    return n


async def other_types(way):
    """
    A ciphertext of one cipher or configuration given to another.
    """
    n = 0
    dec = dec_sync if way == "sync" else dec_async
    made = [(cfg, cipher_type(cfg[0], **cfg[1])(KEY)) for cfg in CONFIGS]
    for (x, a), (y, b) in itertools.permutations(made, 2):
        for blocks in (1, 2, 3):
            ct = enc_sync(a, message(a._config, blocks), AAD)
            await accept(dec, a, ct, AAD)
            n += await refuse(f"{x} as {y}", dec, b, ct, AAD)
    return n


async def formats(base, part, parts):
    """
    Tokens & JSON: every character replaced, every cut.
    """
    c = cipher_type(base)(KEY)
    n = 0
    token = c.make_token(b"token", aad=AAD).decode()
    raw = base64.urlsafe_b64decode(token + "=" * (-len(token) % 4))
    await accept(c.read_token, token, aad=AAD)
    await accept(c.aread_token, token, aad=AAD)
    marks = "AQgwZ_-09az="
    for i in range(part, len(token), parts):
        for m in marks:
            if m == token[i]:
                continue
            bad = token[:i] + m + token[i + 1 :]
            try:
                same = base64.urlsafe_b64decode(bad + "=" * (-len(bad) % 4)) == raw
            except Exception:
                same = False
            if same:
                continue
            n += await refuse(f"token {i}->{m}", c.read_token, bad, aad=AAD)
            n += await refuse(f"token {i}->{m}", c.aread_token, bad, aad=AAD)
        cut = token[:i]
        n += await refuse(f"token cut {i}", c.read_token, cut, aad=AAD)
        n += await refuse(f"token cut {i}", c.aread_token, cut, aad=AAD)
    for aad in (b"", AAD[:-1], AAD + b"\x00"):
        n += await refuse("token aad", c.read_token, token, aad=aad)
        n += await refuse("token aad", c.aread_token, token, aad=aad)
    ct = c.json_encrypt({"a": 1}, aad=AAD)
    await accept(c.json_decrypt, ct, aad=AAD)
    await accept(c.ajson_decrypt, ct, aad=AAD)
    for what, bad in flips(ct, part * len(ct) // parts, (part + 1) * len(ct) // parts, False):
        n += await refuse(f"json {what}", c.json_decrypt, bad, aad=AAD)
        n += await refuse(f"json {what}", c.ajson_decrypt, bad, aad=AAD)
    for aad in (b"", AAD[:-1], AAD + b"\x00"):
        n += await refuse("json aad", c.json_decrypt, ct, aad=aad)
        n += await refuse("json aad", c.ajson_decrypt, ct, aad=aad)
    return n


async def _feed(c, way, salt, iv, aad, packets, tag, whole):
    """
    Receives a stream; raises unless everything was authenticated.
    """
    out = []
    if way == "sync":
        s = c.stream_decrypt(salt=salt, aad=aad, iv=iv)
        for p in [b"".join(packets)] if whole else packets:
            s.buffer(p)
            out.extend(s)
        out.extend(s.finalize())
        s.shmac.test_shmac(tag)
    else:
        s = await c.astream_decrypt(salt=salt, aad=aad, iv=iv)
        for p in [b"".join(packets)] if whole else packets:
            await s.abuffer(p)
            async for x in s:
                out.append(x)
        async for x in s.afinalize():
            out.append(x)
        await s.shmac.atest_shmac(tag)
    return b"".join(out)


async def streams(base, changes, blocks, part, way):
    c = cipher_type(base, **changes)(KEY)
    cfg = c._config
    text = message(cfg, blocks)
    s = c.stream_encrypt(aad=AAD)
    pairs = [*s.buffer(text), *s.finalize()]
    salt, iv, tag = s.salt, s.iv, s.shmac.result
    packets = [i + b for i, b in pairs]
    n = 0
    if await _feed(c, way, salt, iv, AAD, packets, tag, False) != text:
        raise Bad("a genuine stream gave another plaintext")

    async def no(what, *, salt=salt, iv=iv, aad=AAD, packets=packets, tag=tag, c=c):
        m = 0
        for whole in (False, True):
            m += await refuse(
                what, _feed, c, way, salt, iv, aad, packets, tag, whole
            )
        return m

    if part == "packets":
        for k, p in enumerate(packets):
            for what, bad in flips(p, 0, len(p), False):
                mix = packets[:k] + [bad] + packets[k + 1 :]
                n += await no(f"packet {k} {what}", packets=mix)
    elif part == "parts":
        for name, value in (("salt", salt), ("iv", iv), ("tag", tag)):
            for what, bad in flips(value, 0, len(value), True):
                n += await no(f"{name} {what}", **{name: bad})
        for k in range(len(tag)):
            n += await no(f"tag cut to {k}", tag=tag[:k])
        n += await no("longer tag", tag=tag + b"\x00")
        for what, bad in flips(AAD, 0, len(AAD), False):
            n += await no(f"aad {what}", aad=bad)
        for bad in (b"", AAD[:-1], AAD + b"\x00"):
            n += await no("aad", aad=bad)
        kind = type(c)
        for i in range(len(KEY)):
            bad = KEY[:i] + bytes([KEY[i] ^ 1]) + KEY[i + 1 :]
            n += await no(f"key {i}", c=kind(bad))
    else:
        count = len(packets)
        for size in range(1, count + 2):
            for order in itertools.product(range(count), repeat=size):
                if order == tuple(range(count)):
                    continue
                n += await no(
                    f"packets {order}", packets=[packets[i] for i in order]
                )
        for k, l in itertools.permutations(range(count), 2):
            mix = list(packets)
            mix[k] = pairs[l][0] + pairs[k][1]
            n += await no(f"id {l} on block {k}", packets=mix)
        # packets of a twin stream under the same salt
        t = c.stream_encrypt(aad=AAD, salt=salt)
        twin = [i + b for i, b in [*t.buffer(text), *t.finalize()]]
        for pick in itertools.product((0, 1), repeat=count):
            if any(pick):
                mix = [(packets, twin)[x][i] for i, x in enumerate(pick)]
                n += await no(f"twin {pick}", packets=mix)
        n += await no("twin's tag", tag=t.shmac.result)
        n += await no("twin's iv", iv=t.iv)
    return n


async def long_ones(base, changes, blocks, way, stream):
    """
    Every block of a long message: altered, left out, repeated, swapped
    with the next one & with the first one, or the last one kept.
    """
    c = cipher_type(base, **changes)(KEY)
    text = message(c._config, blocks)
    if stream:
        s = c.stream_encrypt(aad=AAD)
        packets = [i + b for i, b in [*s.buffer(text), *s.finalize()]]
        salt, iv, tag = s.salt, s.iv, s.shmac.result

        async def receive(packets):
            return await _feed(c, way, salt, iv, AAD, packets, tag, True)

    else:
        tag, salt, iv, packets = split(c, enc_sync(c, text, AAD))
        dec = dec_sync if way == "sync" else dec_async

        async def receive(packets):
            return await call(dec, c, tag + salt + iv + b"".join(packets), AAD)

    if await receive(packets) != text:
        raise Bad("a genuine long message gave another plaintext")
    n = 0
    count = len(packets)
    for i, p in enumerate(packets):
        at = i * 37 % len(p)
        bad = p[:at] + bytes([p[at] ^ (1 << i % 8)]) + p[at + 1 :]
        mixes = dict(
            altered=packets[:i] + [bad] + packets[i + 1 :],
            out=packets[:i] + packets[i + 1 :],
            repeated=packets[: i + 1] + packets[i:],
            cut=packets[:i],
        )
        for name, j in (("swapped", i + 1), ("first", 0)):
            if i != j < count:
                mix = list(packets)
                mix[i], mix[j] = mix[j], mix[i]
                mixes[name] = mix
        for name, mix in mixes.items():
            n += await refuse(f"block {i} of {count} {name}", receive, mix)
    return n


SECTIONS = dict(
    long_ones=long_ones,
    bits=bits,
    sizes=sizes,
    shuffles=shuffles,
    splices=splices,
    context=context,
    other_types=other_types,
    formats=formats,
    streams=streams,
)


def jobs_for(thorough):
    jobs = []
    for base, changes in CONFIGS:
        cfg = cfg_of(base, changes)
        plain = not changes
        for way in ("sync", "aio"):
            for blocks in (1, 2, 3):
                size = cfg.HEADER_BYTES + cfg.BLOCKSIZE * (
                    blocks + cfg.MIN_PADDING_BLOCKS
                )
                if not plain and blocks > 2 and not thorough:
                    continue
                full = thorough or (way == "sync" and plain and blocks == 1)
                for lo in range(0, size, 64):
                    jobs.append(
                        ("bits", (base, changes, blocks, lo, lo + 64, full, way))
                    )
                jobs.append(("sizes", (base, changes, blocks, way)))
                if blocks <= 3:
                    jobs.append(("shuffles", (base, changes, blocks, way)))
            if plain or thorough:
                jobs.append(("shuffles", (base, changes, 4, way)))
            jobs.append(("splices", (base, changes, way)))
            if plain or thorough:
                jobs.append(("context", (base, changes, way)))
            for blocks in (1, 2, 3):
                for part in ("packets", "parts", "orders"):
                    if part == "packets" and blocks > 2 and not thorough and (
                        base == "C" or changes
                    ):
                        continue
                    if part == "parts" and blocks > 1 and not thorough:
                        continue
                    jobs.append(("streams", (base, changes, blocks, part, way)))
    for base, way, stream in itertools.product("CS", ("sync", "aio"), (0, 1)):
        for blocks in (17, 40, 66, 130, 260, 520) if thorough else (17, 40, 130, 260):
            jobs.append(("long_ones", (base, {}, blocks, way, stream)))
    for way in ("sync", "aio"):
        jobs.append(("other_types", (way,)))
    for base in "CS":
        for part in range(8):
            jobs.append(("formats", (base, part, 8)))
    return jobs


def work(job):
    name, args = job
    KINDS.clear()
    try:
        return asyncio.run(SECTIONS[name](*args)), None, dict(KINDS)
    except Bad as e:
        return 0, str(e), {}


def main():
    check = Check("C06", "fault_enumeration")
    jobs = jobs_for(check.thorough)
    check.rule = (
        "one evaluation is one decryption attempt of a ciphertext, token "
        "or stream that differs from a genuine one in exactly the stated "
        "alteration; alterations equal to a genuine message are skipped"
    )
    bad = 0
    for i, (n, problem, kinds) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(evaluations=n)
        check.part(name, evaluations=n, jobs=1)
        check.part("refused with", **kinds)
        check.distinct_extra += n
        if problem and bad < 5:
            bad += 1
            check.violation(
                f"{name}:{args[:2]}".replace(" ", ""), problem, dict(job=[name, args])
            )
    for job in jobs[:: max(1, len(jobs) // 8)]:
        check.sample(repr(job)[:300])
    return check.finish()


def replay(data):
    out = work(data["job"])
    print(out)
    return 1 if out[1] else 0
