"""
C20: password hashes.
"""

import asyncio
import itertools
import sys
import tracemalloc

from mc import boot
from mc.report import Check, pmap
from . import inline
from .spellings import spellings

A = boot.load()
CTL = boot.CTL
Passcrypt = A.Passcrypt
Config = A.keygens.passcrypt.config.PasscryptConfig
SPEC = A.keygens.passcrypt.config.passcrypt_spec
Expired = Passcrypt.TimestampExpired
Invalid = Passcrypt.InvalidPassphrase

PASS = b"a pass phrase"
AAD = b"context"
SMALL = dict(mb_allowed=range(1, 4), cpu_allowed=range(1, 5), cores_allowed=range(1, 4))
WIDE = dict(
    mb_allowed=range(1, 256**3 + 1),
    cpu_allowed=range(1, 257),
    cores_allowed=range(1, 257),
)
START = 1_700_000_000_000_000_000


class Bad(Exception):
    pass


class Work(Exception):
    """
    The work of a hash was begun.
    """


class CountingPool(inline.InlinePool):
    def __init__(self, refuse=False):
        self.jobs = 0
        self.refuse = refuse

    def submit(self, fn, /, *args, **kwargs):
        self.jobs += 1
        if self.refuse:
            raise Work
        return super().submit(fn, *args, **kwargs)


def pool(refuse=False):
    A.asynchs.Processes.pool = out = CountingPool(refuse)
    return out


def make(form, pcrypt, passphrase=PASS, aad=AAD):
    if form:
        return asyncio.run(pcrypt.ahash_passphrase(passphrase, aad=aad))
    return pcrypt.hash_passphrase(passphrase, aad=aad)


def verify(form, *args, cls=Passcrypt, **kw):
    """
    None when verified, else the error.
    """
    try:
        out = asyncio.run(cls.averify(*args, **kw)) if form else cls.verify(*args, **kw)
    except Exception as e:
        return e
    if out is not None and out is not True:
        raise Bad(f"verification returned {out!r}")
    return None


def fixed_hash(**kw):
    """
    A hash at a known time with known salt bytes.
    """
    CTL.time_ns = lambda: START
    kw = dict(dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=4), **kw)
    return Passcrypt(**kw).hash_passphrase(PASS, aad=AAD)


# ---- only the right inputs --------------------------------------------


def changes(value):
    """
    Every single byte altered, every prefix & suffix, & extensions.
    """
    for i in range(len(value)):
        for bit in (1, 0x20, 0x80):
            yield value[:i] + bytes([value[i] ^ bit]) + value[i + 1 :]
        yield value[:i] + value[i + 1 :]
    for i in range(len(value)):
        yield value[:i]
    for more in (b"\x00", b"a", b"\xf2", b" ", b"\n", value):
        yield value + more
        yield more + value


def wrong_inputs(form, settings):
    pool()
    n = 0
    CTL.time_ns = lambda: START
    pcrypt = Passcrypt(**settings)
    for aad in (AAD, b""):
        h = make(form, pcrypt, aad=aad)
        for again in (0, 1):
            n += 1
            e = verify(again, h, PASS, aad=aad, **SMALL)
            if e is not None:
                raise Bad(f"{settings}: the right passphrase is refused, {e!r}")
        tries = [(p, aad) for p in sorted(set(changes(PASS)) - {PASS})]
        tries += [(PASS, x) for x in sorted(set(changes(aad)) - {aad})]
        tries += [
            # the boundary between the two moved
            (PASS + aad[:1], aad[1:]),
            (PASS[:-1], PASS[-1:] + aad),
            (PASS + aad, b""),
            (aad + PASS, b""),
            (aad * 2, PASS),
        ]
        for p, x in tries:
            if (p, x) == (PASS, aad):
                continue
            n += 1
            e = verify(form, h, p, aad=x, **SMALL)
            if len(p) < 12:
                if not isinstance(e, (ValueError, Invalid)):
                    raise Bad(f"short passphrase {p}: {e!r}")
            elif not isinstance(e, Invalid):
                raise Bad(f"{settings}: {(p, x)} verifies {(PASS, aad)}: {e!r}")
    return n


class Peppered(Passcrypt):
    PEPPER = b"pepper"


def peppers():
    """
    The application-wide secret of a class is part of all of its hashes.
    """
    pool()
    n = 0
    CTL.time_ns = lambda: START
    kw = dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=4)
    makers = [Passcrypt, Peppered]
    for one, two, form in itertools.product(makers, makers, (0, 1)):
        n += 1
        h = make(form, one(**kw))
        e = verify(form, h, PASS, aad=AAD, cls=two, **SMALL)
        if (e is None) != (one is two):
            raise Bad(f"{one.__name__} hash by {two.__name__}: {e!r}")
    seen = {}
    for pepper, aad in itertools.product((b"", b"p", b"pa", b"a"), repeat=2):
        n += 1
        maker = type("Maker", (Passcrypt,), dict(PEPPER=pepper, __slots__=()))
        tag = maker(mb=1, cpu=1, cores=1, tag_size=16).new(PASS, b"salt", aad=aad)
        if tag in seen:
            raise Bad(f"{(pepper, aad)} & {seen[tag]} give the same")
        seen[tag] = (pepper, aad)
    return n


# ---- altered hashes ---------------------------------------------------


def outside(h):
    """
    Whether a hash declares costs which aren't in the small box.
    """
    at = SPEC.TIMESTAMP_BYTES
    costs = (int.from_bytes(h[at : at + 3], "big"), *h[at + 3 : at + 5])
    return not all(c + 1 in r for c, r in zip(costs, SMALL.values()))


def small_verify(form, h):
    """
    Verifies with the small box allowed, which the work is confined to.
    """
    out = outside(h)
    p = pool(refuse=out)
    e = verify(form, h, PASS, aad=AAD, **SMALL)
    if out and p.jobs:
        raise Bad(f"work began on {h.hex()} which isn't allowed")
    return e


def altered(form, size, salt, first, step, values):
    """
    Every altered byte of a hash; only the declared costs of the allowed
    box are worked on.
    """
    pool()
    n = 0
    h = fixed_hash(tag_size=size, salt_size=salt)
    for at in range(first, len(h), step):
        for v in values:
            new = h[:at] + bytes([h[at] ^ v]) + h[at + 1 :]
            n += 1
            if small_verify(form, new) is None:
                raise Bad(f"byte {at} of {h.hex()} altered by {v} verifies")
    return n


def resized(form, size, salt):
    pool()
    n = 0
    h = fixed_hash(tag_size=size, salt_size=salt)
    o = fixed_hash(tag_size=size, salt_size=salt)
    news = {h[:i] for i in range(len(h))}
    news |= {h[i:] for i in range(1, len(h))}
    news |= {h[:i] + h[i + 1 :] for i in range(len(h))}
    news |= {h[:i] + b"\x00" + h[i:] for i in range(len(h) + 1)}
    news |= {h + bytes(k) for k in (1, 2, 16)} | {h + h, h + h[-size:]}
    # a piece of another hash, of the same time & settings
    for i, j in itertools.combinations(range(0, len(h) + 1, 4), 2):
        news.add(h[:i] + o[i:j] + h[j:])
    news -= {h, o}
    for new in sorted(news):
        n += 1
        e = small_verify(form, new)
        if e is None:
            raise Bad(f"{new.hex()} verifies, made of {h.hex()} & {o.hex()}")
    return n


# ---- limits before work -----------------------------------------------


def header(mb, cpu, cores, salt=4, size=16, stamp=START):
    """
    A hash which declares any costs.
    """
    t = (stamp - SPEC.EPOCH_NS).to_bytes(SPEC.TIMESTAMP_BYTES, "big")
    return (
        t
        + (mb - 1).to_bytes(3, "big")
        + bytes([cpu - 1, cores - 1, salt - 1])
        + b"s" * salt
        + b"t" * size
    )


def allowed(form, costs):
    """
    All small ranges crossed with all costs: worked on exactly if allowed.
    """
    n = 0
    CTL.time_ns = lambda: START
    box = [range(1, 1), range(1, 2), range(1, 3), range(2, 3), range(2, 4), range(3, 9), range(1, 9, 2)]
    for mb, cpu, cores in costs:
        h = header(mb, cpu, cores)
        for m, c, k in itertools.product(box, repeat=3):
            n += 1
            p = pool(refuse=True)
            e = verify(form, h, PASS, aad=AAD, mb_allowed=m, cpu_allowed=c, cores_allowed=k)
            fits = mb in m and cpu in c and cores in k
            if fits != bool(p.jobs) or fits != isinstance(e, Work):
                raise Bad(f"{(mb, cpu, cores)} in {(m, c, k)}: {e!r}, {p.jobs} jobs")
            if not fits and isinstance(e, Expired):
                raise Bad(f"{(mb, cpu, cores)} in {(m, c, k)}: {e!r}")
    return n


def default_limits(form):
    n = 0
    CTL.time_ns = lambda: START
    M, C, K = (
        SPEC.MB_RESOURCE_SAFETY_RANGE,
        SPEC.CPU_RESOURCE_SAFETY_RANGE,
        SPEC.CORES_RESOURCE_SAFETY_RANGE,
    )
    for mb, cpu, cores in itertools.product(
        (1, 2, 255, 256, 257, M.stop - 1, M.stop, M.stop + 1, 65536, 65537, 256**3),
        (1, C.stop - 1, C.stop, 256),
        (1, K.stop - 1, K.stop, 256),
    ):
        n += 1
        p = pool(refuse=True)
        e = verify(form, header(mb, cpu, cores), PASS, aad=AAD)
        fits = mb in M and cpu in C and cores in K
        if fits != bool(p.jobs) or fits != isinstance(e, Work):
            raise Bad(f"{(mb, cpu, cores)} by default: {e!r}, {p.jobs} jobs")
    if (M.stop, C.stop, K.stop) > (512, 33, 9) or M.stop > 512:
        raise Bad(f"default limits {(M, C, K)}")
    return n


def ages(form):
    """
    Every age around every limit: nothing is worked on once expired, all
    the rest verifies.
    """
    n = 0
    h = header(1, 1, 1)
    ns = 10**9
    for ttl in (None, 0, 1, 2, 60, 0.5, 0.25, 1e-6, 3600, 10**6):
        limit = None if ttl is None else int(ttl * ns)
        around = [0, 1, 2, ns - 1, ns, ns + 1, 10**15]
        if limit is not None:
            around += [limit - 1, limit, limit + 1, limit * 2 + 5, limit + ns]
        for age in around:
            if age < 0:
                continue
            n += 1
            CTL.time_ns = lambda: START + age
            p = pool(refuse=True)
            e = verify(form, h, PASS, aad=AAD, ttl=ttl)
            late = limit is not None and age > limit
            if late != isinstance(e, Expired) or late == bool(p.jobs):
                raise Bad(f"age {age} for {ttl}: {e!r}, {p.jobs} jobs")
    # for real
    pool()
    h = fixed_hash()
    for ttl, age in ((1, ns), (1, ns + 1), (0, 0), (0, 1), (None, 10**18), (2.5, 25 * ns // 10)):
        n += 1
        CTL.time_ns = lambda: START + age
        e = verify(form, h, PASS, aad=AAD, ttl=ttl)
        late = ttl is not None and age > ttl * ns
        if late != isinstance(e, Expired) or (not late and e is not None):
            raise Bad(f"age {age} for {ttl}: {e!r}")
    return n


def declared(form):
    """
    Malformed declarations.
    """
    n = 0
    CTL.time_ns = lambda: START
    for salt, size in itertools.product(range(1, 9), (0, 1, 8, 15, 16, 17)):
        n += 1
        p = pool(refuse=True)
        e = verify(form, header(1, 1, 1, salt, size), PASS, aad=AAD)
        fits = salt >= 4 and size >= 16
        if fits != bool(p.jobs) or e is None:
            raise Bad(f"salt {salt} tag {size}: {e!r}, {p.jobs} jobs")
    for junk in (b"", b"\x00", bytes(13), bytes(14), bytes(40), b"\xff" * 40, b"\xff" * 400):
        n += 1
        p = pool(refuse=True)
        e = verify(form, junk, PASS, aad=AAD)
        if e is None or (p.jobs and junk != bytes(40)):
            raise Bad(f"{junk}: {e!r}, {p.jobs} jobs")
    return n


# ---- settings ---------------------------------------------------------


def settings(form):
    n = 0
    base = dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=4)
    good = dict(
        mb=(1, 2, 256**3 - 1, 256**3),
        cpu=(1, 255, 256),
        cores=(1, 255, 256),
        tag_size=(16, 17, 1000),
        salt_size=(4, 5, 255, 256),
    )
    bad = dict(
        mb=(0, -1, 256**3 + 1, 1.0, "1", True, None, b"\x01"),
        cpu=(0, -1, 257, 1.0, "1", True, None),
        cores=(0, -1, 257, 1.0, "1", True, None),
        tag_size=(0, 15, -16, 16.0, "16", None, True),
        salt_size=(0, 3, 257, -4, 4.0, "4", None, True),
    )
    for name in base:
        for v in good[name]:
            n += 1
            Passcrypt(**{**base, name: v})
        for v in bad[name]:
            n += 1
            try:
                Passcrypt(**{**base, name: v})
            except Exception:
                continue
            raise Bad(f"{name} of {v!r} accepted")
    pcrypt = Passcrypt(**base)

    def new(*a, **k):
        p = pool(refuse=True)
        try:
            if form:
                asyncio.run(pcrypt.anew(*a, **k))
            else:
                pcrypt.new(*a, **k)
        except Exception as e:
            return e, p.jobs
        return None, p.jobs

    salt = b"salt"
    for size in range(0, 20):
        n += 1
        e, jobs = new(b"p" * size, salt)
        if isinstance(e, Work) != (size >= 12) or bool(jobs) != (size >= 12):
            raise Bad(f"passphrase of {size}: {e!r}, {jobs} jobs")
    for size in (0, 1, 3, 4, 5, 255, 256, 257, 500):
        n += 1
        e, jobs = new(PASS, b"s" * size)
        if bool(jobs) != (4 <= size <= 256) or isinstance(e, Work) != bool(jobs):
            raise Bad(f"salt of {size}: {e!r}, {jobs} jobs")
    for wrong in ("a long passphrase", None, 5, bytearray(PASS), [PASS]):
        for at in range(3):
            if at == 2 and type(wrong) is bytearray:
                continue
            n += 1
            args = [PASS, salt, AAD]
            args[at] = wrong
            e, jobs = new(args[0], args[1], aad=args[2])
            if e is None or jobs:
                raise Bad(f"input {at} as {wrong!r}: {e!r}, {jobs} jobs")
    return n


# ---- everything counts ------------------------------------------------


def inputs(thorough):
    out = []
    mbs = (1, 2, 3, 4) if thorough else (1, 2, 3)
    cpus = range(1, 9) if thorough else (1, 2, 3, 4)
    for mb, cpu, cores in itertools.product(mbs, cpus, (1, 2, 3)):
        out.append((mb, cpu, cores, 16, b"salt", PASS, AAD))
    for size in range(16, 36):
        out.append((1, 1, 1, size, b"salt", PASS, AAD))
    salts = [b"salt", b"sals", b"Salt", b"salt\x00", b"\x00salt", b"salt" * 2]
    salts += [bytes(k) for k in (4, 5, 8, 32, 255, 256)]
    # the boundaries between the inputs moved
    texts = [
        (PASS, AAD),
        (PASS + b"salt", AAD),
        (PASS[:-1], AAD),
        (PASS, b""),
        (PASS, AAD[1:]),
        (PASS, b"\x00" + AAD),
        (PASS + AAD, b""),
    ]
    for text in spellings():
        out += [(1, 1, 1, 16, b"salt", text, AAD), (1, 1, 1, 16, b"salt", PASS, text)]
        if len(text) < 200:
            out.append((1, 1, 1, 16, text, PASS, AAD))
    for salt, (p, a) in itertools.product(salts, texts):
        out.append((1, 1, 1, 16, salt, p, a))
    out += [
        (1, 1, 1, 16, b"salt" + AAD[:1], PASS, AAD[1:]),
        (1, 1, 1, 16, PASS[-4:] , PASS[:-1] , AAD),
        (1, 1, 1, 16, b"esalt", PASS[:-1], AAD),
        (1, 1, 1, 16, PASS[-1:] + b"salt", PASS[:-1], AAD),
    ]
    # long ones, which differ at their ends
    for size in (64, 136, 168, 256, 1000, 1025, 4097, 70_000):
        x = bytes(i % 251 for i in range(size))
        for y in (x, x[:-1], x[:-1] + b"\xff", b"\xff" + x[1:]):
            out.append((1, 1, 1, 16, b"salt", y, AAD))
            out.append((1, 1, 1, 16, b"salt", PASS, y))
            if len(y) <= 256:
                out.append((1, 1, 1, 16, y, PASS, AAD))
    return sorted(set(out))


def results(part):
    pool()
    n = 0
    rows = []
    for k, (mb, cpu, cores, size, salt, p, a) in part:
        tags = []
        for form in (0, 1):
            pcrypt = Passcrypt(mb=mb, cpu=cpu, cores=cores, tag_size=size)
            if form:
                tags.append(asyncio.run(pcrypt.anew(p, salt, aad=a)))
            else:
                tags.append(pcrypt.new(p, salt, aad=a))
            n += 1
        if tags[0] != tags[1] or len(tags[0]) != size:
            raise Bad(f"{(mb, cpu, cores, size, salt, p, a)}: {tags}")
        rows.append((k, tags[0]))
    return n, rows


def compare(rows):
    seen = {}
    for k, tag in rows:
        # nor may one be the beginning of another
        other = seen.setdefault(tag[:12], k)
        if other != k:
            return other, k
    return None


def edges(form, kw, thorough):
    """
    Hashes of the greatest & smallest supported settings verify.
    """
    pool()
    CTL.time_ns = lambda: START
    kw = dict(dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=4), **kw)
    h = make(form, Passcrypt(**kw))
    if len(h) != SPEC.HEADER_BYTES + kw["salt_size"] + kw["tag_size"]:
        raise Bad(f"{kw}: {len(h)} bytes")
    e = verify(1 - form, h, PASS, aad=AAD, **WIDE)
    if e is not None:
        raise Bad(f"{kw}: the right passphrase is refused, {e!r}")
    e = verify(form, h, PASS + b"x", aad=AAD, **WIDE)
    if not isinstance(e, Invalid):
        raise Bad(f"{kw}: a wrong passphrase gives {e!r}")
    return 3


def configs(form):
    """
    Hashes of one configuration don't verify with another.
    """
    pool()
    n = 0
    CTL.time_ns = lambda: START
    kinds = [
        SPEC,
        Config(CONFIG_ID=b"Other"),
        Config(CONFIG_ID=b"Passcrypt", MIN_PASSPHRASE_BYTES=4),
        Config(CONFIG_ID=b"Passcrypt", TIME_UNIT="seconds"),
        Config(CONFIG_ID=b"Passcrypt", EPOCH_NS=SPEC.EPOCH_NS + 10**9),
    ]
    for one, two in itertools.product(kinds, repeat=2):
        n += 1
        kw = dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=4, config=one)
        h = make(form, Passcrypt(**kw))
        e = verify(form, h, PASS, aad=AAD, config=two, **SMALL)
        if (e is None) != (one is two):
            raise Bad(f"{one.CONFIG_ID} & {two.CONFIG_ID}: {e!r}")
    # time limits are in seconds whatever the unit of the timestamps
    for unit in ("nanoseconds", "microseconds", "milliseconds", "seconds"):
        config = Config(CONFIG_ID=b"Passcrypt", TIME_UNIT=unit)
        CTL.time_ns = lambda: START
        kw = dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=4, config=config)
        h = make(form, Passcrypt(**kw))
        for age, ttl in itertools.product((0, 1, 2, 3, 4, 7200), (0, 1, 2, 3, 3600)):
            n += 1
            CTL.time_ns = lambda: START + age * 10**9
            pool(refuse=True)
            e = verify(form, h, PASS, aad=AAD, config=config, ttl=ttl)
            if isinstance(e, Expired) != (age > ttl):
                raise Bad(f"{unit}: age {age} for {ttl}: {e!r}")
        pool()
    return n


LAYOUTS = [
    dict(MB_BYTES=1, MAX_MB=256),
    dict(MB_BYTES=4, MAX_MB=256**4),
    dict(CPU_BYTES=2, MAX_CPU=65536),
    dict(CPU_BYTES=2, MAX_CPU=300),
    dict(CORES_BYTES=2, MAX_CORES=65536),
    dict(SALT_SIZE_BYTES=2, MAX_SALT_SIZE=300),
    dict(SALT_SIZE_BYTES=2, MAX_SALT_SIZE=65536),
    dict(TIMESTAMP_BYTES=9),
    dict(TIMESTAMP_BYTES=16, TIME_UNIT="milliseconds"),
    dict(TIMESTAMP_BYTES=4, TIME_UNIT="seconds"),
    dict(MIN_SALT_SIZE=1),
    dict(MIN_SALT_SIZE=9, MAX_SALT_SIZE=20),
    dict(MIN_TAG_SIZE=8),
    dict(MIN_TAG_SIZE=33),
    dict(MIN_MB=2, MAX_MB=3),
    dict(MIN_CPU=2, MAX_CPU=3),
    dict(MIN_CORES=2, MAX_CORES=3),
    dict(MIN_PASSPHRASE_BYTES=1),
    dict(MIN_PASSPHRASE_BYTES=13),
    dict(CPU_TO_DIGEST_PAIRS_PER_ROW_RATIO=1),
    dict(
        MB_BYTES=2, CPU_BYTES=2, CORES_BYTES=2, SALT_SIZE_BYTES=2, TIMESTAMP_BYTES=9,
        MAX_MB=65536, MAX_CPU=65536, MAX_CORES=65536, MAX_SALT_SIZE=65536,
        MIN_SALT_SIZE=1, MIN_TAG_SIZE=1, MIN_PASSPHRASE_BYTES=1,
    ),
]


def layouts(form, changes):
    """
    Configurations of other field sizes & limits: hashes verify with the
    right passphrase only, & the limits are those of the configuration.
    """
    n = 0
    CTL.time_ns = lambda: START
    config = Config(CONFIG_ID=b"Passcrypt", **changes)
    names = ("mb", "cpu", "cores", "salt_size", "tag_size")
    low = (config.MIN_MB, config.MIN_CPU, config.MIN_CORES, config.MIN_SALT_SIZE, config.MIN_TAG_SIZE)
    top = (config.MAX_MB, config.MAX_CPU, config.MAX_CORES, config.MAX_SALT_SIZE, None)
    wide = dict(
        mb_allowed=range(1, 1 << 40),
        cpu_allowed=range(1, 1 << 40),
        cores_allowed=range(1, 1 << 40),
    )
    base = dict(zip(names, low))
    base["mb"] = max(base["mb"], base["cores"])
    base["tag_size"] = max(base["tag_size"], 16)
    secret = (PASS + PASS)[: max(config.MIN_PASSPHRASE_BYTES, 2)]
    for name, least, most in zip(names, low, top):
        # the fields which are changed, & another
        touched = any(name.upper().partition("_")[0] in k for k in changes)
        values = [least, least + 1] if touched else [least] * (name == "tag_size")
        if touched and most is not None and (name == "salt_size" or most < 9):
            values.append(most)
        for value in values:
            if name == "cores" and value > 9:
                continue
            pool()
            n += 4
            kw = dict(base, **{name: value})
            if name == "cores":
                # each gets at least the least memory
                kw["mb"] = config.MIN_MB * value
                if kw["mb"] > config.MAX_MB:
                    continue
            maker = Passcrypt(config=config, **kw)
            h = (
                asyncio.run(maker.ahash_passphrase(secret, aad=AAD))
                if form
                else maker.hash_passphrase(secret, aad=AAD)
            )
            if len(h) != config.HEADER_BYTES + kw["salt_size"] + kw["tag_size"]:
                raise Bad(f"{changes} {kw}: {len(h)} bytes")
            for again in (0, 1):
                e = verify(again, h, secret, aad=AAD, config=config, **wide)
                if e is not None:
                    raise Bad(f"{changes} {kw}: the right passphrase is refused, {e!r}")
            e = verify(form, h, secret + b"x", aad=AAD, config=config, **wide)
            # shorter tags are equal by chance
            if kw["tag_size"] >= 16 and not isinstance(e, Invalid):
                raise Bad(f"{changes} {kw}: a wrong passphrase gives {e!r}")
            e = verify(
                form, h, secret, aad=AAD, config=config,
                **dict(wide, **{f"{k}_allowed": range(kw[k] + 1, 1 << 40) for k in ("mb",)}),
            )
            if e is None:
                raise Bad(f"{changes} {kw}: verifies outside the allowed range")
        for value in (least - 1, *([] if most is None else [most + 1])):
            n += 1
            p = pool(refuse=True)
            e = None
            try:
                maker = Passcrypt(config=config, **dict(base, **{name: value}))
                maker.hash_passphrase(secret, aad=AAD)
            except Exception as error:
                e = error
            if e is None or isinstance(e, Work) or p.jobs:
                raise Bad(f"{changes}: {name} of {value}: {e!r}, {p.jobs} jobs")
    if config.MIN_PASSPHRASE_BYTES > 1:
        n += 1
        p = pool(refuse=True)
        try:
            Passcrypt(config=config, **base).hash_passphrase(secret[: config.MIN_PASSPHRASE_BYTES - 1], aad=AAD)
            e = None
        except Exception as error:
            e = error
        if e is None or isinstance(e, Work) or p.jobs:
            raise Bad(f"{changes}: a passphrase too short: {e!r}, {p.jobs} jobs")
    pool()
    return n


def memory(form):
    """
    While a hash is being made, or verified, it holds the memory which it
    declares.
    """
    pool()
    n = 0
    CTL.time_ns = lambda: START
    make(form, Passcrypt(mb=1, cpu=1, cores=1, tag_size=16))
    for mb, cpu, cores in itertools.product((1, 2, 3), (1, 2, 3, 9), (1, 2)):
        if cores > mb:
            continue
        n += 2
        pcrypt = Passcrypt(mb=mb, cpu=cpu, cores=cores, tag_size=16, salt_size=4)
        hashed = []
        for act in (
            lambda: hashed.append(make(form, pcrypt)),
            lambda: verify(form, hashed[0], PASS, aad=AAD, **WIDE),
        ):
            held = [0] * 1024

            def look(*_):
                held[min(tracemalloc.get_traced_memory()[0] >> 14, 1023)] += 1

            tracemalloc.start()
            sys.setprofile(look)
            try:
                act()
            finally:
                sys.setprofile(None)
                tracemalloc.stop()
            # at most of the steps which the work consists of
            steps = 0
            for at in reversed(range(1024)):
                steps += held[at]
                if steps >= sum(held) / 2:
                    break
            top = (at + 1) << 14
            # the parts of the memory are here worked on one after another
            if top < (mb << 20) / cores:
                raise Bad(f"mb {mb} cpu {cpu} cores {cores}: {top} bytes held")
    return n


SECTIONS = dict(
    memory=memory,
    layouts=layouts,
    wrong_inputs=wrong_inputs,
    peppers=peppers,
    altered=altered,
    resized=resized,
    allowed=allowed,
    default_limits=default_limits,
    ages=ages,
    declared=declared,
    settings=settings,
    results=results,
    edges=edges,
    configs=configs,
)


def jobs_for(thorough):
    jobs = []
    all_ = list(enumerate(inputs(thorough)))
    for i in range(16):
        jobs.append(("results", (all_[i::16],)))
    for form in (0, 1):
        jobs.append(("wrong_inputs", (form, dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=8))))
        jobs.append(("wrong_inputs", (1 - form, dict(mb=2, cpu=2, cores=2, tag_size=20, salt_size=4))))
        values = range(1, 256) if thorough else (1, 2, 4, 0x10, 0x80, 0xFF)
        for first in range(8):
            jobs.append(("altered", (form, 16, 4, first, 8, values)))
        jobs.append(("resized", (form, 16, 4)))
        if thorough:
            jobs.append(("resized", (1 - form, 24, 9)))
        costs = list(itertools.product((1, 2, 3), repeat=3)) + [(257, 1, 1), (1, 256, 1), (1, 1, 256), (256**3, 256, 256)]
        for i in range(4):
            jobs.append(("allowed", (form, costs[i::4])))
        for name in ("default_limits", "ages", "declared", "settings", "configs", "memory"):
            jobs.append((name, (form,)))
        for changed in LAYOUTS:
            jobs.append(("layouts", (form, changed)))
        for kw in (
            dict(cpu=256),
            dict(cpu=255, tag_size=200),
            dict(salt_size=256),
            dict(salt_size=255, tag_size=333),
            dict(mb=9, cores=8),
            dict(mb=3, cores=7, cpu=3),
        ):
            jobs.append(("edges", (form, kw, thorough)))
        if thorough:
            jobs.append(("edges", (form, dict(cores=256), thorough)))
            jobs.append(("edges", (form, dict(mb=257), thorough)))
    jobs.append(("peppers", ()))
    return jobs


def work(job):
    name, args = job
    inline.use()
    try:
        return SECTIONS[name](*args), None
    except Bad as e:
        return 0, str(e)[:1500]
    finally:
        CTL.time_ns = CTL.urandom = None


def main():
    check = Check("C20", "fault_enumeration")
    check.rule = (
        "hash calls & verifications; distinct counts those of differing "
        "inputs, all of which are enumerated"
    )
    jobs = jobs_for(check.thorough)
    bad = 0
    rows = []
    for i, (n, problem) in pmap(work, jobs):
        name, args = jobs[i]
        if name == "results" and not problem:
            n, more = n
            rows += more
        check.count(evaluations=n)
        check.distinct_extra += n
        check.part(name, jobs=1, calls=n)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    same = compare(sorted(rows))
    if same:
        table = inputs(check.thorough)
        check.violation(
            "same result",
            f"{table[same[0]]} & {table[same[1]]} give the same",
            dict(same=same, tier=check.tier),
        )
    for job in jobs[::12]:
        check.sample(repr(job)[:200])
    return check.finish()


def replay(data):
    thorough = data["tier"] == "thorough"
    if "same" in data:
        inline.use()
        table = inputs(thorough)
        rows = results([(k, table[k]) for k in data["same"]])[1]
        print(rows)
        return 1 if compare(rows) else 0
    out = work(jobs_for(thorough)[data["job"]])
    print(out)
    return 1 if out[1] else 0
