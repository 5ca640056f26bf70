"""
C10: expiry is exact everywhere a time-to-live is accepted.
"""

import asyncio
import itertools
import shutil
import tempfile
from fractions import Fraction

from mc import boot
from mc.report import Check, pmap
from . import inline
from .cipherlib import DEC, ENC, KEY, call, cipher_type, pattern, split

A = boot.load()
CTL = boot.CTL
Clock = A.asynchs.Clock
Expired = Clock.TimestampExpired

S = 10**9
NOW = 1_800_000_123 * S
UNITS = dict(
    nanoseconds=1,
    microseconds=10**3,
    milliseconds=10**6,
    centiseconds=10**7,
    deciseconds=10**8,
    seconds=S,
    minutes=60 * S,
    hours=3600 * S,
    days=86400 * S,
    months=Fraction(86400 * S * 36524225, 1200000),
    years=Fraction(86400 * S * 36524225, 100000),
)
AAD = b"time"


class Bad(Exception):
    pass


def at(ns):
    CTL.time_ns = lambda: ns


# ---- raw clocks -------------------------------------------------------


async def clocks(unit, epoch):
    size = UNITS[unit]
    exact = not isinstance(size, Fraction)
    clock = Clock(unit, epoch=epoch)
    n = 0
    verdicts = set()

    def tick(ns):
        return int(Fraction(ns - epoch) // Fraction(size))

    def when(k, off):
        return epoch + int(Fraction(size) * k) + off

    base = tick(NOW) + 3
    # instants next to the edges of a tick
    edge = (
        [0, 1, int(size) // 2, int(size) - 1]
        if exact
        else [10**6, int(size) // 2, int(size) - 10**6]
    )
    edge = sorted({e for e in edge if 0 <= e < size})
    starts = [when(base, e) for e in edge]
    if unit == "nanoseconds":
        starts = [when(base + i, 0) for i in range(130)]
    for made in starts:
        at(made)
        stamps = [
            (clock.make_timestamp(), "big"),
            (await clock.amake_timestamp(), "big"),
        ]
        for size_, order in itertools.product((8, 9, 12), ("little", "big")):
            kw = dict(size=size_, byte_order=order)
            stamps.append((clock.make_timestamp(**kw), order))
            stamps.append((await clock.amake_timestamp(**kw), order))
        for stamp, order in stamps:
            n += 1
            a = clock.read_timestamp(stamp, byte_order=order)
            b = await clock.aread_timestamp(stamp, byte_order=order)
            if not (a == b == tick(made)):
                raise Bad(f"{unit} stamp made at {made} reads {a} & {b}")
        # months & years are fractional: stay where floats are exact enough
        far = 10**7 if exact else 500
        for ttl in (0, 1, 2, 59, 1000 if exact else 100, far, None, -1):
            ages = (
                (0, 1, 100 * far if exact else far)
                if ttl is None
                else (0, ttl - 1, ttl, ttl + 1, ttl + 2, -1, 2 * ttl + 5)
            )
            for age, off in itertools.product(
                ages, edge if exact else edge[:1] + edge[-1:]
            ):
                read = when(tick(made) + age, off)
                if read < 0:
                    continue
                at(read)
                stamp, order = stamps[n % len(stamps)]
                n += 1
                want = None
                if ttl is not None and age > ttl:
                    want = (unit, age - ttl)
                got = []
                for f in (clock.test_timestamp, clock.atest_timestamp):
                    try:
                        out = await call(f, stamp, ttl, byte_order=order)
                        got.append(None if out is None else ("returned", out))
                    except Expired as e:
                        got.append((e.units, e.expired_by))
                verdicts.add(want is None)
                if got != [want, want]:
                    raise Bad(
                        f"{unit}, epoch {epoch}: age {age} (offset {off}) "
                        f"against {ttl}: {got}, not {want}"
                    )
                d = clock.delta(stamp, byte_order=order)
                if d != age or d != await clock.adelta(stamp, byte_order=order):
                    raise Bad(f"{unit}: age {age} measured as {d}")
    if len(verdicts) != 2:
        raise Bad("no boundary was crossed")
    return n, n


# ---- ciphertexts ------------------------------------------------------


def outcome(f, *a, **kw):
    async def go():
        try:
            return ("ok", await call(f, *a, **kw))
        except Expired as e:
            return ("expired", e.units, e.expired_by)
        except Exception as e:
            return ("error", type(e).__name__)

    return go()


BOUNDS = [
    (ttl, age)
    for ttl in (0, 1, 7, 86400, None)
    for age in (
        (0, 1, 10**8)
        if ttl is None
        else (0, ttl - 1, ttl, ttl + 1, ttl + 2, ttl + 1000, -5)
    )
]


def expected(ttl, age, value, unit="seconds"):
    if ttl is not None and age > ttl:
        return ("expired", unit, age - ttl)
    return ("ok", value)


async def ciphers(base, changes, unit):
    """
    Each way of writing, read in each way at each age.
    """
    changes = dict(changes)
    if unit != "seconds":
        changes["time_unit"] = unit
        changes.setdefault("timestamp_bytes", 8)
        changes.setdefault("siv_key_bytes", 4)
    kind = cipher_type(base, **changes)
    if kind is None:
        raise Bad(f"{base} {changes} is not a configuration")
    c = kind(KEY)
    size = UNITS[unit]
    n = 0
    for length in (0, 1, c._config.BLOCKSIZE * 2):
        m = pattern("count", length)
        for way in ENC:
            at(NOW)
            ct = await call(ENC[way], c, m, AAD)
            bad = bytearray(ct)
            bad[-1] ^= 1
            for ttl, age in BOUNDS:
                for off in (0, size - 1):
                    # the first or last instant of that tick
                    at((NOW // size) * size + age * size + off)
                    for how in DEC:
                        n += 1
                        got = await outcome(DEC[how], c, ct, AAD, ttl)
                        want = expected(ttl, age, m, unit)
                        if got != want:
                            raise Bad(
                                f"{base} {changes} {way}->{how} length "
                                f"{length} age {age} against {ttl}: {got}"
                            )
                for how in DEC:
                    n += 1
                    got = await outcome(DEC[how], c, bytes(bad), AAD, ttl)
                    if got[0] == "ok" or (
                        # one-shot decryption authenticates first
                        got[0] == "expired"
                        and how in ("sync", "aio")
                    ):
                        raise Bad(f"an altered message was {got[0]} via {how}")
    return n, n


def limits():
    """
    Ages & limits around round numbers, far past those of the rest.
    """
    round_ones = {60, 3600, 86400, 7 * 86400, 30 * 86400, 365 * 86400}
    round_ones |= {2**k for k in range(3, 31)} | {10**k for k in range(1, 10)}
    for ttl in sorted({x + off for x in round_ones for off in (-1, 0, 1)}):
        for age in (0, ttl // 2, ttl - 1, ttl, ttl + 1, 2 * ttl):
            yield ttl, age
    for ttl in (2**32, 2**63, 2**64, 10**30):
        for age in (0, 10**6, 2**31):
            yield ttl, age


async def far_limits(base, unit):
    changes = {}
    if unit != "seconds":
        changes = dict(time_unit=unit, timestamp_bytes=8, siv_key_bytes=4)
    c = cipher_type(base, **changes)(KEY)
    size = UNITS[unit]
    n = 0
    m = pattern("count", 5)
    at(NOW)
    made = await call(ENC["sync"], c, m, AAD)
    for ttl, age in limits():
        at((NOW // size) * size + age * size)
        for how in DEC:
            n += 1
            got = await outcome(DEC[how], c, made, AAD, ttl)
            if got != expected(ttl, age, m, unit):
                raise Bad(f"{base} {unit} {how} age {age} against {ttl}: {got}")
    return n, n


async def formats(base):
    c = cipher_type(base)(KEY)
    n = 0
    token = b"t" * 300
    doc = {"a": [1, None, "x" * 300]}
    at(NOW)
    tokens = [c.make_token(token, aad=AAD), await c.amake_token(token, aad=AAD)]
    docs = [c.json_encrypt(doc, aad=AAD), await c.ajson_encrypt(doc, aad=AAD)]
    for ttl, age in BOUNDS:
        at(NOW + age * S)
        for made in tokens:
            for f in (c.read_token, c.aread_token):
                n += 1
                got = await outcome(f, made, aad=AAD, ttl=ttl)
                if got != expected(ttl, age, token):
                    raise Bad(f"token, age {age} against {ttl}: {got}")
        for made in docs:
            for f in (c.json_decrypt, c.ajson_decrypt):
                n += 1
                got = await outcome(f, made, aad=AAD, ttl=ttl)
                if got != expected(ttl, age, doc):
                    raise Bad(f"json, age {age} against {ttl}: {got}")
        if ttl is None:
            for f, made, value in (
                (c.read_token, tokens[0], token),
                (c.aread_token, tokens[0], token),
                (c.json_decrypt, docs[0], doc),
                (c.ajson_decrypt, docs[0], doc),
            ):
                n += 1
                got = await outcome(f, made, aad=AAD)
                if got != ("ok", value):
                    raise Bad(f"without a limit, age {age}: {got}")
    return n, n


# ---- receiving streams ------------------------------------------------


async def histories(base, way, depth, part, parts):
    """
    Every order of feeding, iterating, finishing & the clock passing the
    limit (or not) on a receiving stream.
    """
    c = cipher_type(base)(KEY)
    m = pattern("count", c._config.BLOCKSIZE * 2 + 5)
    at(NOW)
    ct = c.bytes_encrypt(m, aad=AAD)
    tag, salt, iv, blocks = split(c, ct)
    ids = []
    s = c.stream_decrypt(salt=salt, aad=AAD, iv=iv)
    for block in blocks:
        ids.append(s.shmac.next_block_id(block))
        s.buffer(ids[-1] + block)
    shape = len(blocks)
    n = traces = 0
    outcomes = set()
    for seq in itertools.product("BITF", repeat=depth):
        if seq.count("T") > 1 or seq.count("F") > 1 or seq.count("B") > shape:
            continue
        if hash_of(seq) % parts != part:
            continue
        at(NOW)
        if way == "sync":
            s = c.stream_decrypt(salt=salt, aad=AAD, iv=iv, ttl=9)
        else:
            s = await c.astream_decrypt(salt=salt, aad=AAD, iv=iv, ttl=9)
        fed = 0
        late = False
        settled = False
        verdict = None
        out = []
        traces += 1
        for i, op in enumerate(seq):
            n += 1
            if op == "T":
                at(NOW + 10 * S)
                late = True
                continue
            if op == "B":
                try:
                    data = ids[fed] + blocks[fed]
                    await call(s.buffer if way == "sync" else s.abuffer, data)
                except Exception as e:
                    if "F" in seq[:i] or verdict == "expired":
                        break
                    raise Bad(f"{seq[: i + 1]}: {e!r}")
                fed += 1
                continue
            # a read with data at hand before the limit may settle it
            settled = settled or (fed > 0 and not late)
            had = len(out)
            got = "ok"
            try:
                if way == "sync":
                    for x in s if op == "I" else s.finalize():
                        out.append(x)
                else:
                    async for x in s if op == "I" else s.afinalize():
                        out.append(x)
            except Expired as e:
                got = "expired"
                if e.expired_by != 1:
                    raise Bad(f"{seq[: i + 1]}: expired by {e.expired_by}")
            except Exception as e:
                got = type(e).__name__
            if got == "expired":
                verdict = "expired"
                if not late:
                    raise Bad(f"{seq[: i + 1]}: expired too early")
                if had:
                    raise Bad(f"{seq[: i + 1]}: judged twice")
            if late and not settled:
                if out:
                    raise Bad(f"{seq[: i + 1]}: expired data was given out")
                if got == "ok" and op == "F":
                    raise Bad(f"{seq[: i + 1]}: an expired stream finished")
                if verdict and got == "ok" and op == "I" and fed > 1:
                    raise Bad(f"{seq[: i + 1]}: expiry was forgotten")
            if fed == shape and op == "F" and verdict is None and got != "ok":
                raise Bad(f"{seq[: i + 1]}: {got}")
            outcomes.add((verdict, got, op, len(out)))
        if b"".join(out) != m[: len(b"".join(out))]:
            raise Bad(f"{seq}: wrong plaintext")
    return n, traces


def hash_of(seq):
    return sum(ord(x) * (i * 7 + 1) for i, x in enumerate(seq))


# ---- databases & passphrase hashes ------------------------------------


async def databases():
    n = 0
    tmp = tempfile.mkdtemp(prefix="aiootp-c10-")
    try:
        at(NOW)
        db = A.Database(KEY, path=tmp)
        adb = await A.AsyncDatabase(b"k" * 64, path=tmp)
        values = dict(raw=b"some bytes" * 9, doc=["a", 1, None])
        for k, v in values.items():
            db.set_tag(k, v)
            await adb.aset_tag(k, v)
        db.save_database()
        await adb.asave_database()
        box = {}
        for d, e, t in (
            (db, db.bytes_encrypt, db.make_token),
            (adb, adb.abytes_encrypt, adb.amake_token),
        ):
            box[d] = (
                await call(e, b"data", filename="f"),
                await call(t, b"data"),
                await call(
                    db.json_encrypt if d is db else adb.ajson_encrypt,
                    [1],
                    filename="f",
                ),
            )
        for ttl, age in BOUNDS:
            at(NOW + age * S)
            for k, v in values.items():
                for cache in (False, True):
                    for d, q, clear in (
                        (db, db.query_tag, db.clear_cache),
                        (adb, adb.aquery_tag, adb.aclear_cache),
                    ):
                        n += 1
                        await call(clear)
                        got = await outcome(q, k, ttl=ttl, cache=cache)
                        if got != expected(ttl, age, v):
                            raise Bad(
                                f"entry {k}, age {age} against {ttl}: {got}"
                            )
            for d, fs in (
                (db, (db.bytes_decrypt, db.read_token, db.json_decrypt)),
                (adb, (adb.abytes_decrypt, adb.aread_token, adb.ajson_decrypt)),
            ):
                raw, token, doc = box[d]
                for f, data, kw, value in (
                    (fs[0], raw, dict(filename="f"), b"data"),
                    (fs[1], token, {}, b"data"),
                    (fs[2], doc, dict(filename="f"), [1]),
                ):
                    n += 1
                    got = await outcome(f, data, ttl=ttl, **kw)
                    if got != expected(ttl, age, value):
                        raise Bad(f"{f.__name__} age {age} / {ttl}: {got}")
    finally:
        CTL.time_ns = None
        shutil.rmtree(tmp, ignore_errors=True)
    return n, n


async def passcrypt(off):
    n = 0
    inline.use()
    pc = A.Passcrypt(mb=1, cpu=1, cores=1, tag_size=16)
    word = b"a fine passphrase"
    for made in (NOW + off,):
        at(made)
        hashes = [
            pc.hash_passphrase(word, aad=AAD),
            await pc.ahash_passphrase(word, aad=AAD),
        ]
        for h in hashes:
            for ttl in (0, 1, 3600, None):
                for over in (-1, 0, 1, 40, S) if ttl is not None else (0, 10**17):
                    at(made + (ttl or 0) * S + over)
                    for f in (pc.verify, pc.averify):
                        n += 1
                        got = await outcome(f, h, word, aad=AAD, ttl=ttl)
                        want = ("ok", None)
                        if ttl is not None and over > 0:
                            want = ("expired", "nanoseconds", over)
                        if got != want:
                            raise Bad(
                                f"hash made at {made}, {over} past {ttl}: "
                                f"{got}"
                            )
    return n, n


SECTIONS = dict(
    clocks=clocks,
    ciphers=ciphers,
    far_limits=far_limits,
    formats=formats,
    histories=histories,
    databases=databases,
    passcrypt=passcrypt,
)


def jobs_for(thorough):
    jobs = [("databases", ()), *(("passcrypt", (x,)) for x in (0, 1, 31, 33))]
    for unit in UNITS:
        for epoch in (0, 1672531200 * S, 10**18 + 7):
            jobs.append(("clocks", (unit, epoch)))
    for base in "CS":
        jobs.append(("formats", (base,)))
        for unit in list(UNITS)[:9]:
            jobs.append(("ciphers", (base, {}, unit)))
        for unit in list(UNITS)[:6]:
            jobs.append(("far_limits", (base, unit)))
        for way in ("sync", "aio"):
            depth = 10 if thorough else 8
            for part in range(16):
                jobs.append(("histories", (base, way, depth, part, 16)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0), str(e)
    finally:
        CTL.time_ns = None


def main():
    check = Check("C10", level="exploration")
    check.assumptions = [
        "the clock is read from the system's nanosecond clock, which is "
        "replaced by one the check moves",
    ]
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((n, distinct), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(evaluations=n)
        check.distinct_extra += distinct
        check.part(name, evaluations=n)
        if problem and bad < 5:
            bad += 1
            check.violation(
                f"{name}:{args[:3]}".replace(" ", ""),
                problem,
                dict(job=[name, args]),
            )
    check.rule = (
        "a case counts once per instant, limit, interface & configuration"
    )
    for job in jobs[:: max(1, len(jobs) // 8)]:
        check.sample(repr(job)[:300])
    return check.finish()


def replay(data):
    out = work(data["job"])
    print(out)
    return 1 if out[1] else 0
