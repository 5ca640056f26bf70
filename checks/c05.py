"""
C05: every plaintext decrypts to itself.
"""

import asyncio
import itertools
import json

from mc import boot
from mc.report import Check, pmap
from .cipherlib import (
    DEC,
    ENC,
    KEY,
    Sized,
    call,
    cipher_type,
    custom_configs, mixed_configs,
    pattern,
)

A = boot.load()
CTL = boot.CTL
T0 = 1_700_000_000_000_000_000


class Bad(Exception):
    pass


def expect_size(cfg, ct):
    size = len(ct) - cfg.HEADER_BYTES
    if size <= 0 or size % cfg.BLOCKSIZE:
        raise Bad(f"size {len(ct)} isn't a header & whole blocks")


async def trip(c, data, aad, enc, decs, salt=None):
    """
    One message through one way in & several ways out.
    """
    try:
        ct = await call(ENC[enc], c, data, aad, salt)
    except Exception as e:
        raise Bad(f"encrypting ({enc}) failed: {e!r}")
    if type(ct) is not bytes:
        raise Bad(f"encrypting ({enc}) gave a {type(ct)}")
    expect_size(c._config, ct)
    if salt is not None:
        a = c._config.SHMAC_BYTES
        if ct[a : a + c._config.SALT_BYTES] != salt:
            raise Bad("the given salt isn't in the ciphertext")
    for dec in decs:
        try:
            out = await call(DEC[dec], c, ct, aad)
        except Exception as e:
            raise Bad(f"{enc} -> {dec} failed: {e!r}")
        if out != data or type(out) is not bytes:
            raise Bad(f"{enc} -> {dec} gave another plaintext")
    return len(decs)


async def lengths(base, changes, lo, hi, kind, encs, decs):
    c = cipher_type(base, **changes)(KEY)
    n = 0
    for size in range(lo, hi):
        data = pattern(kind, size)
        for enc in encs:
            try:
                n += await trip(c, data, b"", enc, decs)
            except Bad as e:
                raise Bad(f"length {size} {kind}: {e}")
    return n


async def contexts(base, what, values):
    """
    Keys, salts & associated data of every size & shape.
    """
    n = 0
    kind = cipher_type(base)
    for v in values:
        key, aad, salt = KEY, b"", None
        if what == "key":
            key = bytes([v[0]]) * v[1]
        elif what == "aad":
            aad = bytes([v[0]]) * v[1]
        else:
            size = kind._config.SALT_BYTES
            raw = bytearray([v[0]] * size)
            raw[v[1] % size] = v[2]
            salt = bytes(raw)
        c = kind(key)
        for enc in ENC:
            for data in (b"", b"context"):
                try:
                    n += await trip(c, data, aad, enc, tuple(DEC), salt)
                except Bad as e:
                    raise Bad(f"{what} {v}: {e}")
    return n


async def surroundings(base, moments, sources):
    """
    Clock positions & outputs of the system's random source.
    """
    n = 0
    kind = cipher_type(base)
    c = kind(KEY)
    edge = kind._config.BLOCKSIZE - kind._config.INNER_HEADER_BYTES
    try:
        for t, source in itertools.product(moments, sources):
            CTL.time_ns = lambda t=t: t
            CTL.urandom = (
                Sized.counter() if source is None else Sized.const(source)
            )
            for size in (0, 1, edge - 2, edge - 1, edge, edge + 1):
                for enc in ENC:
                    try:
                        n += await trip(
                            c, pattern("count", size), b"", enc, tuple(DEC)
                        )
                    except Bad as e:
                        raise Bad(f"clock {t} random {source} {size}: {e}")
    finally:
        CTL.time_ns = CTL.urandom = None
    return n


def json_values():
    atoms = [
        None,
        True,
        False,
        0,
        -1,
        1,
        2**64,
        -(2**70),
        1.5,
        -0.25,
        1e300,
        "",
        "a",
        "é中\U0001f511",
        '"\\/\b\n\r\t\u0000',
        "\ud800",
        "\udfff\ud800\x7f\x80\u2028\ufeff",
        "</script>&#34;%00",
        " \x00 ",
        2**53 + 1,
        5e-324,
        -0.0,
        "x" * 300,
    ]
    out = list(atoms)
    out += [[], {}, [[]], [{}], {"": []}, {"": {}}]
    out += [[x] for x in atoms]
    out += [{"k": x} for x in atoms]
    out += [[x, y] for x in atoms for y in atoms]
    out += [{"b": 1, "a": {"d": 0, "c": 0}, "B": 2}]
    out += [{"a": x, "é": y} for x in atoms for y in atoms]
    return out


def same(a, b):
    return type(a) is type(b) and json.dumps(a) == json.dumps(b) and a == b


async def formats(base, part, parts):
    """
    JSON & tokens, both interfaces in & out.
    """
    n = 0
    c = cipher_type(base)(KEY)
    for value in json_values()[part::parts]:
        for aad in (b"", b"aad"):
            salt = pattern("count", c._config.SALT_BYTES) if aad else None
            for enc in (c.json_encrypt, c.ajson_encrypt):
                for dec in (c.json_decrypt, c.ajson_decrypt):
                    try:
                        ct = await call(enc, value, aad=aad, salt=salt)
                        out = await call(dec, ct, aad=aad)
                    except Exception as e:
                        raise Bad(f"json {value!r:.60}: {e!r}")
                    if not same(out, value):
                        raise Bad(f"json {value!r:.60} gave {out!r:.60}")
                    expect_size(c._config, ct)
                    if salt and salt != ct[c._config.SHMAC_BYTES :][: len(salt)]:
                        raise Bad("the given salt isn't in the json ciphertext")
                    n += 1
    step = c._config.PADDING_FRAME
    for size in list(range(part, 2 * step + 2, parts)):
        data = pattern("count", size)
        for enc in (c.make_token, c.amake_token):
            for dec in (c.read_token, c.aread_token):
                try:
                    token = await call(enc, data, aad=b"t")
                    safe = bytes(token).decode("ascii")
                    if set(safe) - set(
                        "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
                        "0123456789-_="
                    ):
                        raise Bad("token isn't URL safe")
                    for form in (token, safe):
                        out = await call(dec, form, aad=b"t")
                        if out != data:
                            raise Bad("another plaintext")
                        n += 1
                except Bad as e:
                    raise Bad(f"token of {size} bytes: {e}")
                except Exception as e:
                    raise Bad(f"token of {size} bytes: {e!r}")
    return n


SECTIONS = dict(
    lengths=lengths,
    contexts=contexts,
    surroundings=surroundings,
    formats=formats,
)


def jobs_for(thorough):
    jobs = []
    ways, outs = tuple(ENC), tuple(DEC)
    for base in "CS":
        cfg = cipher_type(base)._config
        top = (6 if thorough else 3) * cfg.PADDING_FRAME + 3
        step = max(8, top // 24)
        for kind in ("zero", "ones", "count", "low", "tail0"):
            for lo in range(0, top, step):
                hi = min(top, lo + step)
                jobs.append(("lengths", (base, {}, lo, hi, kind, ways, outs)))
        big = [4096, 65536] + ([1 << 20] if thorough else [1 << 18])
        for size in big:
            for way in ways:
                jobs.append(
                    (
                        "lengths",
                        (base, {}, size - 1, size + 2, "count", (way,), outs)
                        if size < 1 << 17
                        else (base, {}, size, size + 1, "count", (way,), outs),
                    )
                )
        for b in (0, 1, 255):
            for lo in range(0, 400, 50):
                jobs.append(
                    ("contexts", (base, "aad", [(b, n) for n in range(lo, lo + 50)]))
                )
        jobs.append(
            (
                "contexts",
                (base, "aad", [(9, n) for n in (4095, 4096, 65535, 65536, 70000)]),
            )
        )
        for b in (0, 1, 255):
            for lo in range(64, 364, 60):
                jobs.append(
                    ("contexts", (base, "key", [(b, n) for n in range(lo, lo + 60)]))
                )
        jobs.append(("contexts", (base, "key", [(9, n) for n in (1023, 1024, 65536)])))
        for v in (0, 255):
            for pos in range(cfg.SALT_BYTES):
                jobs.append(
                    (
                        "contexts",
                        (
                            base,
                            "salt",
                            [(v, pos, x) for x in (0, 1, 127, 128, 255)],
                        ),
                    )
                )
        epoch = cfg.EPOCH_NS
        second = 10**9
        for s in (0, 1, 255, 256, 65535, 65536, 2**24, 2**31 - 1, 2**31, 2**32 - 1):
            jobs.append(
                (
                    "surroundings",
                    (base, [epoch + s * second], [None, 0, 1, 127, 128, 255]),
                )
            )
        for part in range(16):
            jobs.append(("formats", (base, part, 16)))
    for base, changes in custom_configs():
        cfg = cipher_type(base, **changes)._config
        frame = cfg.PADDING_FRAME
        inner = cfg.INNER_HEADER_BYTES
        ways = tuple(ENC)
        top = (3 if thorough else 2) * frame
        # every length within reach of a boundary of the padding
        wide = 2 * cfg.SENTINEL_BYTES + 12
        spans = []
        if frame <= 128 or thorough:
            spans.append((0, top + 3))
        else:
            spans.append((0, 4))
            for k in range(1, 3 + (inner // frame)):
                mid = k * frame - inner
                spans.append((max(4, mid - wide), mid + 6))
        for lo, hi in spans:
            for kind in ("count", "zero") if not thorough else ("count", "zero", "ones"):
                jobs.append(("lengths", (base, changes, lo, hi, kind, ways, outs)))
    for base, changes in mixed_configs():
        cfg = cipher_type(base, **changes)._config
        frame, inner = cfg.PADDING_FRAME, cfg.INNER_HEADER_BYTES
        near = 2 if not thorough else 8
        ways = tuple(ENC)[:: 1 if thorough else 3]
        spans = [(0, 2)]
        for k in range(1, 3 + inner // frame):
            mid = k * frame - inner
            for edge in (mid, mid - cfg.SENTINEL_BYTES):
                spans.append((max(2, edge - near), edge + near))
        for lo, hi in spans:
            if lo < hi:
                jobs.append(("lengths", (base, changes, lo, hi, "count", ways, outs)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return 0, str(e)


def main():
    check = Check("C05", "exploration")
    jobs = jobs_for(check.thorough)
    check.rule = (
        "one evaluation is one message taken through one way to encrypt "
        "and one way to decrypt; every case differs in cipher, "
        "configuration, length, content, context, clock, randomness or "
        "route, and none is empty of blocks"
    )
    bad = 0
    for i, (n, problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(evaluations=n)
        check.part(name, evaluations=n, jobs=1)
        check.distinct_extra += n
        if problem and bad < 5:
            bad += 1
            check.violation(
                f"{name}:{args[0]}:{args[1]}",
                f"{problem}",
                dict(job=[name, args]),
            )
    for job in jobs[:: max(1, len(jobs) // 6)]:
        check.sample(repr(job)[:300])
    return check.finish()


def replay(data):
    name, args = data["job"]
    out = work((name, args))
    print(out)
    return 1 if out[1] else 0
