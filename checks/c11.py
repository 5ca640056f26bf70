"""
C11: synchronous & asynchronous interfaces are interchangeable.
"""

import asyncio
import hashlib
import importlib
import itertools
import os
import shutil
import tempfile
from collections import deque
from pathlib import Path

from mc import boot
from mc.report import Check, pmap
from . import inline
from .cipherlib import KEY, Sized, Waits, cipher_type, pattern, split, weave

A = boot.load()
CTL = boot.CTL
NOW = 1_800_000_123 * 10**9
LIMIT = 40


class Bad(Exception):
    pass


def plain(x):
    """
    Something comparable for any result.
    """
    if isinstance(x, (deque, list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, (str, bytes, int, float, bool, type(None), dict, set)):
        return x
    if hasattr(x, "sort_key"):
        return x.sort_key
    if hasattr(x, "digest"):
        return x.digest()
    return type(x).__name__


async def settle(f, *a, **kw):
    """
    The outcome of a call in either form; (async) iterators are drained
    up to a limit.
    """
    try:
        out = f(*a, **kw)
        if hasattr(out, "__await__"):
            out = await out
        if hasattr(out, "__anext__"):
            items = []
            async for x in out:
                items.append(plain(x))
                if len(items) >= LIMIT:
                    break
            return ("items", items)
        if hasattr(out, "__next__"):
            return ("items", [plain(x) for x in itertools.islice(out, LIMIT)])
        return ("value", plain(out))
    except Exception as e:
        return ("error", type(e).__name__)


def calm():
    CTL.urandom = Sized.const(0x5A)
    CTL.time_ns = lambda: NOW
    CTL.perf_ns = lambda: 10**9


def uncalm():
    CTL.urandom = CTL.time_ns = CTL.perf_ns = None


# ---- functions --------------------------------------------------------


def inputs():
    """
    name -> (sync, async, [(args, kwargs), ...])
    """
    g = A.generics
    gt = importlib.import_module("aiootp._gentools")
    p = importlib.import_module("aiootp._paths")
    from aiootp.asynchs import Clock
    mnemonic, amnemonic = A.mnemonic, A.amnemonic

    data = [b"", b"a", b"\x00", b"\x00a", b"ab\xff" * 3, bytes(range(40))]
    sizes = [-1, 0, 1, 2, 3, 7, 8, 40, 41]
    out = {}

    def add(name, f, af, cases):
        out[name] = (f, af, list(cases))

    def product(*args, **kws):
        names = list(kws)
        for values in itertools.product(*args, *kws.values()):
            yield (
                values[: len(args)],
                dict(zip(names, values[len(args) :])),
            )

    add("batch", gt.batch, gt.abatch, product(data, size=[0, 1, 2, 7, 40, 99]))
    add("resize", gt.resize, gt.aresize, product(data, sizes, blocks=[None, *sizes]))
    add("bytes_count", gt.bytes_count, gt.abytes_count,
        product(start=[0, 250, -1], size=[0, 1, 2, 8], byte_order=["big", "little", "x"]))
    add("bytes_range", gt.bytes_range, gt.abytes_range,
        [((*a,), dict(size=s)) for a in [(3,), (2, 5), (9, 1, -2), (), (0,), (1, 2, 0)] for s in (1, 8)])
    add("collate", gt.collate, gt.acollate,
        [((*a,), {}) for n in range(4) for a in itertools.product([b"", b"ab", [1, None]], repeat=n)])
    add("count", gt.count, gt.acount, product(start=[0, 5, -3, 1.5, None]))
    add("cycle", gt.cycle, gt.acycle, product([[], [1], b"abc", None]))
    add("unpack", gt.unpack, gt.aunpack, product([[], [1], b"abc", None, {1: 2}]))
    add("popleft", lambda x: gt.popleft(deque(x)), lambda x: gt.apopleft(deque(x)), product([[], [1, 2], b"abc"]))

    add("canonical_pack", g.canonical_pack, g.acanonical_pack,
        [((*items,), dict(blocksize=b, pad=pad, int_bytes=i))
         for n in range(3) for items in itertools.product(data[:4], repeat=n)
         for b in (0, 1, 3, 16, 300) for pad in (b"", b"\x00", b"z", b"zz") for i in (0, 1, 8)])
    packed = [g.canonical_pack(*x, blocksize=b) for x in ((), (b"a",), (b"", b"bc")) for b in (1, 5, 32)]
    mutants = []
    for blob in packed:
        mutants += [blob[:i] for i in range(len(blob))] + [blob + b"\x00", blob + b"x"]
        for i in range(len(blob)):
            for v in (0, 1, 255):
                mutants.append(blob[:i] + bytes([v]) + blob[i + 1 :])
    add("canonical_unpack", g.canonical_unpack, g.acanonical_unpack, product(packed + mutants))
    add("fullblock_ljust", g.canon.fullblock_ljust, g.canon.afullblock_ljust,
        product(data, [0, 1, 3, 4, 40], pad=[b"", b"\x00", b"=", b"ab"]))
    add("encode_key", g.canon.encode_key, g.canon.aencode_key,
        product(data, [-1, 0, 1, 3, 72, 168], pad=[b"\x00", b"k", b""]))
    add("bytes_are_equal", g.bytes_are_equal, g.abytes_are_equal, product([*data, "a", None], [*data, "a", None]))
    add("encode_items", g.canon.encode_items, g.canon.aencode_items,
        [(x, dict(int_bytes=i)) for n in range(4) for x in itertools.product(data[:4], repeat=n) for i in (0, 1, 8)])
    add("hash_bytes", g.hash_bytes, g.ahash_bytes,
        [((*items,), dict(hasher=h, size=s, key=key, pad=pad))
         for items in [(), (b"",), (b"a", b"b"), (b"ab",), ("no",)]
         for h in (hashlib.sha3_256, hashlib.sha3_512, hashlib.shake_128, hashlib.shake_256)
         for s in (None, 0, 1, 32, -1) for key in (None, b"", b"k") for pad in (b"\x00", b"p")])
    tables = ["0123456789", "01", b"\x00\x01\x02", "a"]
    add("int_as_base", g.transform.int_as_base, g.transform.aint_as_base,
        [((n, b), dict(table=t)) for n in (0, 1, 9, 10, 12345678901234567890)
         for b, t in [(None, "0123456789"), (2, "0123456789"), (3, b"\x00\x01\x02"), (None, b"\x00\x01\x02"), (38, "0")]
         if not (b == 38 and n > 10)])
    add("base_as_int", g.transform.base_as_int, g.transform.abase_as_int,
        [((s, b), dict(table=t)) for s in ("", "0", "10", "987", "x", b"\x01\x02", b"\x09")
         for b in (None, 2, 3) for t in tables[:3]])
    add("xi_mix", g.transform.xi_mix, g.transform.axi_mix, product(data, size=[0, 1, 2, 8, 16]))
    add("encode_constant", A.generics.Domains.encode_constant, A.generics.Domains.aencode_constant,
        [((c,), kw) for c in (b"x", "x", "", b"", 5) for kw in
         ({}, dict(domain=b"d"), dict(aad=b"a"), dict(size=1), dict(size=64), dict(size=0))])

    io_ = g.ByteIO
    for name in ("bytes_to_urlsafe", "bytes_to_filename", "_bytes_to_phrase"):
        a = "_a" + name[1:] if name[0] == "_" else "a" + name
        add(name, getattr(io_, name), getattr(io_, a), product([*data, "no", None]))
    add("urlsafe_to_bytes", io_.urlsafe_to_bytes, io_.aurlsafe_to_bytes,
        product([b"", "", b"YQ", "YQ", "YWI", "YWJj", "!", "Y", b"Y-_A", "YWI="]))
    add("filename_to_bytes", io_.filename_to_bytes, io_.afilename_to_bytes,
        product([g.ByteIO.bytes_to_filename(d) for d in data] + ["", "/", "ABC", "0", "00a"]))
    phrases = [g.ByteIO._bytes_to_phrase(d) for d in data]
    add("_phrase_to_bytes", io_._phrase_to_bytes, io_._aphrase_to_bytes,
        product([*phrases, b"  " + phrases[4] + b" ", b"nonsense", phrases[4].upper()]))

    add("deniable_filename", p.deniable_filename, p.adeniable_filename, product(data, size=[0, 1, 8, 16, 17, 20]))
    add("filename_to_index_key", p.filename_to_index_key, p.afilename_to_index_key,
        [((f, *aad), dict(size=s, key=key)) for f in ("", "a", "ab") for aad in [(), (b"",), (b"x", b"y")]
         for s in (1, 32) for key in (None, b"k")])
    add("find_salt_file", p._find_salt_file, p._afind_salt_file,
        [((Path("/x/y"),), dict(key=d, size=s)) for d in data for s in (1, 8, 17)])

    m = A.keygens.mnemonics
    keyed_choices, akeyed_choices = m.keyed_choices, m.akeyed_choices
    add("keyed_choices", keyed_choices, akeyed_choices,
        product([b"abc", [1], list(range(300)), []], [0, 1, 5], domain=[b"", b"d"], key=[b"k", KEY, b""]))
    add("mnemonic", mnemonic, amnemonic,
        [((pw, n), kw) for pw in (b"a fine passphrase", b"short") for n in (0, 3)
         for kw in (dict(mb=1, cpu=1, cores=1), dict(mb=1, cpu=1, cores=1, salt=b"abcd"),
                    dict(mb=1, cpu=1, cores=1, words=[b"a", b"b"]))]
        + [((None, 3), dict(mb=1))])

    for unit in ("nanoseconds", "seconds", "minutes", "months"):
        clock = Clock(unit)
        add(f"clock.time {unit}", clock.time, clock.atime, product())
        add(f"clock.make {unit}", clock.make_timestamp, clock.amake_timestamp,
            product(size=[0, 1, 4, 8, 12], byte_order=["big", "little", "x"]))
        for name in ("read_timestamp", "delta"):
            add(f"clock.{name} {unit}", getattr(clock, name), getattr(clock, "a" + name),
                product([b"", b"\x01", bytes(8), b"\xff" * 8], byte_order=["big", "little", "x"]))
        add(f"clock.test {unit}", clock.test_timestamp, clock.atest_timestamp,
            product([b"", b"\x01", bytes(8), b"\xff" * 8], [None, 0, 1, 10**19], byte_order=["big", "little"]))
    return out


def long_inputs():
    """
    The same for what's long or many.
    """
    g = A.generics
    gt = importlib.import_module("aiootp._gentools")
    p = importlib.import_module("aiootp._paths")
    one = [hashlib.shake_128(b"long").digest(n) for n in (257, 4097, 70_001)]
    many = [tuple(one[0][i : i + i % 5] for i in range(n)) for n in (17, 65, 257)]
    out = {}

    def add(name, f, af, cases):
        out[name] = (f, af, list(cases))

    add("batch", gt.batch, gt.abatch, [((x,), dict(size=s)) for x in one for s in (7, 256, 4096)])
    add("resize", gt.resize, gt.aresize, [((x, s), {}) for x in one for s in (100, 256, 80_000)])
    add("collate", gt.collate, gt.acollate, [(many[:2], {}), (tuple(one), {})])
    for name in ("unpack", "popleft"):
        f, af = getattr(gt, name), getattr(gt, "a" + name)
        add(name, lambda x, f=f: f(deque(x)), lambda x, f=af: f(deque(x)), [((x,), {}) for x in (*one, *many)])
    add("bytes_range", gt.bytes_range, gt.abytes_range, [((300,), dict(size=2)), ((0, 70_000, 7), dict(size=8))])
    add("pack", g.canonical_pack, g.acanonical_pack,
        [(x, dict(blocksize=b)) for x in (*many, tuple(one)) for b in (1, 136, 70_000)])
    add("unpack canon", g.canonical_unpack, g.acanonical_unpack,
        [((g.canonical_pack(*x, blocksize=b)[c:],), {}) for x in (*many, tuple(one)) for b in (1, 136) for c in (0, 1)])
    add("encode_items", g.canon.encode_items, g.canon.aencode_items, [(x, {}) for x in (*many, tuple(one))])
    add("ljust", g.canon.fullblock_ljust, g.canon.afullblock_ljust, [((x, b), {}) for x in one for b in (136, 70_000)])
    add("encode_key", g.canon.encode_key, g.canon.aencode_key, [((x, b), {}) for x in one for b in (136, 80_000)])
    add("equal", g.bytes_are_equal, g.abytes_are_equal, [((x, y), {}) for x in one for y in one])
    add("hash", g.hash_bytes, g.ahash_bytes,
        [(x, dict(hasher=h, size=s, key=key)) for x in (*many, tuple(one)) for key in (None, one[0])
         for h, s in ((hashlib.sha3_512, None), (hashlib.shake_128, 70_000))])
    add("xi_mix", g.transform.xi_mix, g.transform.axi_mix, [((x,), dict(size=s)) for x in one for s in (8, 255, 256)])
    table = "0123456789"
    add("as_base", g.transform.int_as_base, g.transform.aint_as_base,
        [((10**k + 7,), dict(table=table)) for k in (20, 300, 2000)])
    add("as_int", g.transform.base_as_int, g.transform.abase_as_int,
        [((table * k,), dict(table=table)) for k in (2, 30, 200)])
    for name in ("bytes_to_urlsafe", "bytes_to_filename"):
        f, af = getattr(g.ByteIO, name), getattr(g.ByteIO, "a" + name)
        add(name, f, af, [((x,), {}) for x in one[:2]])
    add("urlsafe_to_bytes", g.ByteIO.urlsafe_to_bytes, g.ByteIO.aurlsafe_to_bytes,
        [((g.ByteIO.bytes_to_urlsafe(x),), {}) for x in one])
    add("filename_to_bytes", g.ByteIO.filename_to_bytes, g.ByteIO.afilename_to_bytes,
        [((g.ByteIO.bytes_to_filename(x),), {}) for x in one[:2]])
    add("deniable", p.deniable_filename, p.adeniable_filename, [((x,), dict(size=s)) for x in one for s in (8, 64)])
    m = A.keygens.mnemonics
    add("choices", m.keyed_choices, m.akeyed_choices,
        [((list(range(k)), 40), dict(key=KEY, domain=b"d")) for k in (255, 256, 257, 5000)])
    for cls in (A.DomainKDF, *A.DomainKDF.__subclasses__()):
        for x in (*many, tuple(one)):
            def make(x=x, cls=cls):
                return cls(b"domain", *x, key=KEY)
            for name in ("sha3_256", "shake_128"):
                kw = dict(size=70_000) if name == "shake_128" else {}
                add(
                    f"{cls.__name__} {name} {len(x)}",
                    lambda *d, n=name, make=make, **kw: getattr(make(), n)(*d, **kw),
                    lambda *d, n=name, make=make, **kw: getattr(make(), "a" + n)(*d, **kw),
                    [((), dict(aad=x[0], **kw)), (x, kw)],
                )
    return out


async def long_functions(part, parts):
    global LIMIT
    before, LIMIT = LIMIT, 20_000
    try:
        return await functions(part, parts, long_inputs)
    finally:
        LIMIT = before


async def functions(part, parts, inputs=inputs):
    inline.use()
    n = 0
    for i, (name, (f, af, cases)) in enumerate(sorted(inputs().items())):
        if i % parts != part:
            continue
        for a, kw in cases:
            n += 1
            calm()
            x = await settle(f, *a, **kw)
            calm()
            y = await settle(af, *a, **kw)
            if x != y:
                raise Bad(f"{name}{a}{kw}: {x} / {y}")
    return n, n, n


def woven_pair(name, one, two, second):
    """
    Each of two asynchronous calls which interrupt each other anywhere has
    the synchronous one's outcome.
    """
    wanted, both = [], (one, two)
    for f, af, a, kw in both:
        calm()
        co = settle(f, *a, **kw)
        try:
            co.send(None)
        except StopIteration as e:
            wanted.append(e.value)
    calm()

    async def keep(af, a, kw, out):
        out.append(await settle(af, *a, **kw))

    def makers():
        outs = [], []
        pair = [keep(af, a, kw, out) for (_, af, a, kw), out in zip(both, outs)]

        def judge(plan):
            got = [out[0] for out in outs]
            if got != wanted:
                raise Bad(f"{name} woven {plan}: {got} / {wanted}")

        return *pair, judge

    try:
        return weave(makers, second)
    except Waits:
        return 0, 0


async def woven_functions(part, parts, second):
    inline.use()
    n = steps = 0
    for i, (name, (f, af, cases)) in enumerate(sorted(inputs().items())):
        if i % parts != part:
            continue
        if "mnemonic" in name or "bytes_range" in name:
            continue
        seen = []
        for a, kw in cases:
            calm()
            x = await settle(f, *a, **kw)
            size = len(x[1]) if hasattr(x[1], "__len__") else 1
            if x[0] != "error" and 0 < size < 30 and x not in [y for y, _ in seen]:
                seen.append((x, (f, af, a, kw)))
        for (_, one), (_, two) in itertools.permutations(seen[-2:], 2):
            x, y = woven_pair(f"{name}{one[2:]}, {two[2:]}", one, two, second)
            n, steps = n + x, steps + y
    return n, steps, n


async def woven_ciphers(base, part, parts, second):
    c = cipher_type(base)(KEY)
    b = c._config.BLOCKSIZE
    calls = []
    for aad, m in ((b"x", pattern("count", 2 * b)), (b"y", pattern("ones", b // 2))):
        calm()
        kw = dict(aad=aad)
        calls += [
            (c.bytes_encrypt, c.abytes_encrypt, (m,), kw),
            (c.json_encrypt, c.ajson_encrypt, (m.hex(),), kw),
            (c.make_token, c.amake_token, (m,), kw),
            (c.bytes_decrypt, c.abytes_decrypt, (c.bytes_encrypt(m, **kw),), kw),
            (c.json_decrypt, c.ajson_decrypt, (c.json_encrypt(m.hex(), **kw),), kw),
            (c.read_token, c.aread_token, (c.make_token(m, **kw),), kw),
        ]
    n = steps = 0
    for i, (one, two) in enumerate(itertools.product(calls[:6], calls[6:])):
        if i % parts != part:
            continue
        for pair in ((one, two), (two, one)):
            name = " & ".join(f[0].__name__ for f in pair)
            x, y = woven_pair(name, *pair, second)
            n, steps = n + x, steps + y
    return n, steps, n


# ---- objects & mixtures of both forms ---------------------------------


def permutation_objects():
    p = A._permutations
    AffinePermutation = p.affine_permutation.AffinePermutation
    AffineXORChain = p.affine_xor_chain.AffineXORChain
    FastAffineXORChain = p.FastAffineXORChain

    out = {}
    for kind in (AffinePermutation, AffineXORChain, FastAffineXORChain):
        for size in (1, 2, 16):
            key = pattern("count", kind.key_size(size))
            ops = [("permute", (v,)) for v in (0, 1, 255, 256**size - 1)]
            ops += [("invert", (v,)) for v in (0, 77, 256**size - 1)]
            if kind is not AffinePermutation:
                ops += [("step", ()), ("update_increment", (3,)),
                        ("update_increment", (0,)),
                        ("uncapped_permute", (9,)), ("uncapped_invert", (9,))]
            out[f"{kind.__name__}-{size}"] = (
                lambda kind=kind, key=key, size=size: kind(key=key, config_id=size),
                ops,
            )
    return out


def kdf_objects():
    from aiootp.keygens import DomainKDF

    ops = [("update", (b"",)), ("update", (b"a", b"b")), ("update", (b"ab",)), ("update", ())]
    for name in ("sha3_256", "sha3_512"):
        ops += [(name, ()), (name, (b"x",)), (name, (b"x",), dict(aad=b"y"))]
    for name in ("shake_128", "shake_256"):
        ops += [(name, (), dict(size=5)), (name, (b"x", b""), dict(size=64, aad=b"y")), (name, (), dict(size=-1))]
    return dict(DomainKDF=(lambda: DomainKDF(b"d", b"e", key=b"k" * 32), ops))


def id_objects():
    GUID, SequenceID = A.GUID, A.SequenceID
    RawGUID = A.randoms.ids.raw_guid.RawGUID

    out = {}
    for size in (12, 16, 32):
        raw = RawGUID(b"\x01", config_id=size)
        blob = bytes(range(size))
        out[f"RawGUID-{size}"] = (
            lambda size=size: RawGUID(b"\x01", config_id=size),
            [("new", ()), ("read", (blob,)), ("read", (blob[1:],))],
        )
        out[f"GUID-{size}"] = (
            lambda size=size: GUID(node_id=b"\x02", config_id=size),
            [("new", ()), ("read", (blob,)), ("read", (blob[1:],))],
        )
    for size in (1, 12, 32):
        key = pattern("count", SequenceID.key_size(size))
        out[f"SequenceID-{size}"] = (
            lambda key=key, size=size: SequenceID(key=key, config_id=size),
            [("new", (v,)) for v in (0, 1, 200, 255)]
            + [("read", (bytes([v]) * size,)) for v in (0, 9, 255)],
        )
    return out


def curve_objects():
    from aiootp.keygens import Ed25519, X25519

    out = {}
    other = X25519().import_secret_key(b"\x09" * 32)
    out["X25519"] = (
        X25519,
        [("import_secret_key", (b"\x07" * 32,)), ("import_secret_key", (b"\x07",)),
         ("import_public_key", (other.public_bytes,)), ("import_public_key", (None,)),
         ("import_public_key", (other.public_key,)),
         ("exchange", (other.public_bytes,)), ("exchange", (other.public_key,)),
         ("exchange", (b"\x00",))],
    )
    signer = Ed25519().import_secret_key(b"\x09" * 32)
    out["Ed25519"] = (
        Ed25519,
        [("import_secret_key", (b"\x09" * 32,)), ("import_secret_key", (signer.secret_key,)),
         ("import_public_key", (signer.public_bytes,)), ("import_public_key", (b"x",)),
         ("sign", (b"data",)), ("verify", (signer.sign(b"data"), b"data")),
         ("verify", (signer.sign(b"data"), b"Data")),
         ("verify", (signer.sign(b"data"), b"data"), dict(public_key=signer.public_bytes)),
         ("verify", (signer.sign(b"data"), b"data"), dict(public_key=b"\x01"))],
    )
    return out


def exchange_objects():
    """
    Both roles of both protocols with pinned ephemeral keys.
    """
    from aiootp.keygens import X25519

    class Pinned(X25519):
        __slots__ = ()

        class SecretKey(X25519.SecretKey):
            @classmethod
            def generate(cls):
                return X25519.SecretKey.from_private_bytes(b"\x21" * 32)

    Pinned.SecretKey.from_private_bytes = X25519.SecretKey.from_private_bytes

    class Kdf(X25519._KDF, salt_label=b"domain_kdf_salt"):
        def digest(self):
            return self.sha3_512()

    Pinned._KDF = Kdf
    pub = X25519().import_secret_key(b"\x31" * 32).public_bytes
    pub2 = X25519().import_secret_key(b"\x32" * 32).public_bytes

    def me():
        key = Pinned.__new__(Pinned)
        object.__setattr__(key, "_secret_key", X25519.SecretKey.from_private_bytes(b"\x41" * 32))
        object.__setattr__(key, "_public_key", key._secret_key.public_key())
        return key

    return {
        "dh2_client": (Pinned.dh2_client, [("send", (pub,)), ("send", (b"x",)), ("receive", (pub2,)), ("receive", (b"",))]),
        "dh2_server": (lambda: me().dh2_server(), [("receive", (pub,)), ("receive", (b"x",)), ("send", ())]),
        "dh3_client": (lambda: me().dh3_client(), [("send", (pub,)), ("send", (b"x",)), ("receive", (pub2,)), ("receive", (b"",))]),
        "dh3_server": (lambda: me().dh3_server(), [("receive", (pub, pub2)), ("receive", (b"x", pub)), ("send", ())]),
    }


FAMILIES = dict(
    permutations=permutation_objects,
    kdf=kdf_objects,
    ids=id_objects,
    curves=curve_objects,
    exchanges=exchange_objects,
)


async def objects(family, depth, part, parts):
    """
    Every sequence of calls, in every mixture of the two forms, gives the
    same outcomes as the all-synchronous one.
    """
    n = traces = states = 0
    k = 0
    for name, (make, ops) in FAMILIES[family]().items():
        for d in range(1, depth + 1):
            for seq in itertools.product(range(len(ops)), repeat=d):
                k += 1
                if k % parts != part:
                    continue
                first = None
                for mask in itertools.product((0, 1), repeat=d):
                    calm()
                    obj = make()
                    got = []
                    for form, o in zip(mask, seq):
                        op, args, *kw = ops[o]
                        f = getattr(obj, ("a" + op) if form else op)
                        got.append(await settle(f, *args, **(kw[0] if kw else {})))
                        n += 1
                    traces += 1
                    if first is None:
                        first = got
                        states += 1
                    elif got != first:
                        raise Bad(
                            f"{name} {[ops[o][:2] for o in seq]} as {mask}: "
                            f"{got} / {first}"
                        )
    return states, n, traces


# ---- ciphers, streams, padding & authentication -----------------------


async def one_shot(base):
    c = cipher_type(base)(KEY)
    b = c._config.BLOCKSIZE
    n = 0
    lengths = [0, 1, b // 2, b - 1, b, b + 1, 2 * b, 2 * b + 1, 3 * b - 20]
    lengths += [17 * b, 65 * b + 1, 300 * b]
    for length in lengths:
        m = pattern("count", length)
        for kw in ({}, dict(aad=b"x"), dict(salt=bytes(8)), dict(salt=b"short"), dict(aad=None)):
            for f, af, data in (
                (c.bytes_encrypt, c.abytes_encrypt, m),
                (c.json_encrypt, c.ajson_encrypt, m.hex()),
                (c.json_encrypt, c.ajson_encrypt, m),
                (c.make_token, c.amake_token, m),
                (c.make_token, c.amake_token, m.hex()),
            ):
                if "token" in f.__name__ and "salt" in kw:
                    continue
                n += 1
                calm()
                x = await settle(f, data, **kw)
                calm()
                y = await settle(af, data, **kw)
                if x != y:
                    raise Bad(f"{f.__name__} of {length} {kw}: {x[0]} / {y[0]}")
    calm()
    ct = c.bytes_encrypt(pattern("count", b + 3), aad=b"x")
    doc = c.json_encrypt({"a": 1}, aad=b"x")
    token = c.make_token(b"tok" * 9, aad=b"x")
    for f, af, good in (
        (c.bytes_decrypt, c.abytes_decrypt, ct),
        (c.json_decrypt, c.ajson_decrypt, doc),
        (c.read_token, c.aread_token, token),
    ):
        cases = [good, b"", good[:-1], good + b"\x00"]
        for i in range(0, len(good), 5):
            cases.append(good[:i] + bytes([good[i] ^ 1]) + good[i + 1 :])
            cases.append(good[:i])
        for data in cases:
            for kw in ({}, dict(aad=b"x"), dict(aad=b"x", ttl=0), dict(aad=b"x", ttl=5)):
                for late in (0, 10**10):
                    n += 1
                    CTL.time_ns = lambda: NOW + late
                    x = await settle(f, data, **kw)
                    y = await settle(af, data, **kw)
                    if x != y:
                        raise Bad(f"{f.__name__} {kw} {late}: {x} / {y}")
    return n, n, n


async def streams(base, depth):
    """
    The same history on a synchronous & an asynchronous stream.
    """
    c = cipher_type(base)(KEY)
    b = c._config.BLOCKSIZE
    n = traces = 0
    pieces = [pattern("count", x) for x in (0, 1, b - 9, 2 * b + 3)]
    ops = [*range(len(pieces)), "I", "F", "R"]
    kinds = [(c.stream_encrypt, c.astream_encrypt, {})]
    calm()
    ct = c.bytes_encrypt(pattern("ones", b + 30), aad=b"")
    tag, salt, iv, blocks = split(c, ct)
    probe = c.stream_decrypt(salt=salt, iv=iv)
    packets = []
    for block in blocks:
        packets.append(probe.shmac.next_block_id(block) + block)
        probe.buffer(packets[-1])
    kinds.append((c.stream_decrypt, c.astream_decrypt, dict(salt=salt, iv=iv)))
    for f, af, kw in kinds:
        data = pieces if f == c.stream_encrypt else [*packets[:3], packets[0][:-1]]
        for seq in itertools.product(ops, repeat=depth):
            calm()
            s = f(**kw)
            calm()
            a = await af(**kw)
            if sum(x == "F" for x in seq) > 1:
                continue
            traces += 1
            for i, op in enumerate(seq):
                n += 1
                if op == "R":
                    x = await settle(lambda: s.shmac.result)
                    y = await settle(lambda: a.shmac.result)
                elif op == "I":
                    x = await settle(lambda: iter(s))
                    y = await settle(lambda: aiter(a))
                elif op == "F":
                    x = await settle(s.finalize)
                    y = await settle(a.afinalize)
                else:
                    if op >= len(data):
                        continue
                    x = await settle(lambda: s.buffer(data[op]) and None)
                    async def feed():
                        await a.abuffer(data[op])
                    y = await settle(feed)
                if x != y:
                    raise Bad(f"{f.__name__} {seq[: i + 1]}: {x} / {y}")
    return traces, n, traces


async def authenticators(base, depth):
    """
    Stream authentication objects: same ids, tags & refusals.
    """
    c = cipher_type(base)(KEY)
    cfg = c._config
    blocks = [pattern("count", cfg.BLOCKSIZE), pattern("ones", cfg.BLOCKSIZE)]
    n = traces = 0

    async def run(form, way, seq):
        calm()
        iv = None if way == "enc" else bytes(cfg.IV_BYTES)
        bundle = c._KeyAADBundle(c._kdfs, salt=bytes(cfg.SALT_BYTES), aad=b"", iv=iv)
        if form:
            await bundle.async_mode()
        else:
            bundle.sync_mode()
        h = c._StreamHMAC(bundle)
        (h._for_encryption if way == "enc" else h._for_decryption)()
        out = []
        if form:
            async def feed():
                for x in blocks * 9:
                    yield x
            j = c._Junction.abytes_encipher if way == "enc" else c._Junction.abytes_decipher
            cipher = j(feed(), shmac=h)
        else:
            def feed():
                yield from blocks * 9
            j = c._Junction.bytes_encipher if way == "enc" else c._Junction.bytes_decipher
            cipher = j(feed(), shmac=h)
        block_id = bytes(cfg.BLOCK_ID_BYTES)
        for op in seq:
            if op == "next":
                try:
                    out.append(await anext(cipher) if form else next(cipher))
                except Exception as e:
                    out.append(type(e).__name__.replace("Async", ""))
            elif op == "id":
                f = h.anext_block_id if form else h.next_block_id
                block_id_now = await settle(f, blocks[0])
                out.append(block_id_now)
                if block_id_now[0] == "value":
                    block_id = block_id_now[1]
            elif op == "test_id":
                f = h.atest_next_block_id if form else h.test_next_block_id
                out.append(await settle(f, block_id, blocks[0]))
            elif op == "final":
                out.append(await settle(h.afinalize if form else h.finalize))
            elif op == "result":
                out.append(await settle(lambda: h.result))
            elif op == "test":
                f = h.atest_shmac if form else h.test_shmac
                tag = getattr(h, "_result", None) or bytes(cfg.SHMAC_BYTES)
                out.append(await settle(f, tag))
        return out

    for way in ("enc", "dec"):
        for seq in itertools.product(
            ("next", "id", "test_id", "final", "result", "test"), repeat=depth
        ):
            traces += 1
            n += 2 * depth
            x = await run(0, way, seq)
            y = await run(1, way, seq)
            if x != y:
                raise Bad(f"{way} {seq}: {x} / {y}")
    return traces, n, traces


async def paddings(base):
    c = cipher_type(base)(KEY)
    p = c._padding
    b = c._config.BLOCKSIZE
    n = 0
    for length in range(0, 3 * b + 3):
        m = pattern("count", length)
        for name, args in (
            ("pad_plaintext", (m,)),
            ("end_padding", (length,)),
            ("depad_plaintext", (m,)),
            ("depadding_end_index", (m,)),
        ):
            kw = dict(ttl=None) if name == "depad_plaintext" else {}
            n += 1
            calm()
            x = await settle(getattr(p, name), *args, **kw)
            calm()
            y = await settle(getattr(p, "a" + name), *args, **kw)
            if x != y:
                raise Bad(f"{name} {length}: {x} / {y}")
    for name in ("start_padding", "depadding_start_index"):
        calm()
        x = await settle(getattr(p, name))
        calm()
        y = await settle(getattr(p, "a" + name))
        n += 1
        if x != y:
            raise Bad(f"{name}: {x} / {y}")
    return n, n, n


# ---- files ------------------------------------------------------------


def tree(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            path = os.path.join(d, f)
            out[os.path.relpath(path, root)] = (
                open(path, "rb").read(),
                os.stat(path).st_mode & 0o777,
            )
    return out


async def files(depth):
    """
    Plain files & salt files.
    """
    p = importlib.import_module("aiootp._paths")
    from aiootp.generics import ByteIO

    n = traces = 0
    ops = [
        ("write", b"abc"), ("write", b""), ("append", b"de"), ("read", -1),
        ("read", 2), ("make", b"s" * 32), ("make", b"s"), ("update", b"u" * 40),
        ("update", b"u"),
        ("salt", None), ("delete", None), ("request", None),
    ]

    async def step(form, op, arg, path, root):
        if op == "request":
            f = p.AsyncSecureSaltPath if form else p.SecureSaltPath
            return await settle(lambda: f(root, key=b"k" * 32))
        if op in ("write", "append"):
            f = getattr(ByteIO, ("a" if form else "") + op)
            return await settle(f, path, arg)
        if op == "read":
            f = ByteIO.aread if form else ByteIO.read
            return await settle(f, path, arg)
        name = dict(make="make_salt_file", update="update_salt_file",
                    salt="read_salt_file", delete="delete_salt_file")[op]
        f = getattr(p, ("_a" if form else "_") + name)
        kw = dict(salt=arg) if op in ("make", "update") else {}
        return await settle(f, path, **kw)

    for seq in itertools.product(range(len(ops)), repeat=depth):
        first = None
        masks = itertools.product((0, 1), repeat=depth)
        for mask in masks:
            calm()
            root = tempfile.mkdtemp(prefix="aiootp-c11-")
            try:
                path = Path(root) / "file"
                got = []
                for form, o in zip(mask, seq):
                    n += 1
                    got.append(await step(form, *ops[o], path, root))
                # let the check read what was locked down
                got.append(tree(root))
            finally:
                shutil.rmtree(root, ignore_errors=True)
            traces += 1
            if first is None:
                first = got
            elif first != got:
                raise Bad(f"{[ops[o] for o in seq]} as {mask}: {got} / {first}")
    return traces, n, traces


# ---- contexts ---------------------------------------------------------


async def contexts():
    """
    The context which ignores exceptions, with every kind of handler.
    """
    Ignore = importlib.import_module("aiootp._exceptions").Ignore
    kinds = (None, "true", "false", "none", "raise")
    n = 0

    def handler(kind, name, form, log):
        if kind is None:
            return None

        def act(relay):
            log.append((name, type(relay.error).__name__, type(relay.traceback).__name__))
            if kind == "raise":
                raise KeyError(name)
            return dict(true=True, false=False, none=None)[kind]

        async def aact(relay):
            await asyncio.sleep(0)
            return act(relay)

        return aact if form else act

    async def run(form, later, raised, ignored, handlers):
        log = []
        names = ("if_except", "if_else", "finally_run")
        made = {k: handler(h, k, form, log) for k, h in zip(names, handlers)}
        relay = Ignore(*ignored, **({} if later else made))

        def inside(r):
            log.append(r is relay)
            r.bus.note = 1
            if later:
                for name, attr in zip(names, ("except_code", "else_code", "finally_code")):
                    if made[name]:
                        setattr(r, attr, made[name])
            if raised:
                raise raised("inside")

        try:
            if form:
                async with relay as r:
                    inside(r)
            else:
                with relay as r:
                    inside(r)
        except BaseException as e:
            log.append(("escaped", type(e).__name__))
        log.append((repr(relay), type(relay.error).__name__, relay.bus.note))
        return log

    for raised, ignored, later in itertools.product(
        (None, KeyError, ValueError, asyncio.CancelledError),
        ((), (KeyError,), (LookupError, ValueError), (Exception,)),
        (0, 1),
    ):
        for handlers in itertools.product(kinds, repeat=3):
            n += 1
            x = await run(0, later, raised, ignored, handlers)
            y = await run(1, later, raised, ignored, handlers)
            what = f"Ignore{ignored} of {raised} with {handlers}"
            if x != y:
                raise Bad(f"{what}: {x} / {y}")
            caught = raised is not None and issubclass(raised, ignored)
            hide = caught and handlers[0] in (None, "true")
            ends = "raise" == handlers[2]
            first = handlers[0] if caught else handlers[1] if raised is None else None
            if first == "raise" or ends:
                want = "KeyError"
            elif raised is None or hide:
                want = None
            else:
                want = raised.__name__
            got = [e[1] for e in x if e is not True and e[0] == "escaped"]
            if got != ([want] if want else []):
                raise Bad(f"{what}: {x}, not {want}")
            ran = [e[0] for e in x if e is not True and str(e[0]) in ("if_except", "if_else", "finally_run")]
            should = [
                name
                for name, on, h in (
                    ("if_except", caught, handlers[0]),
                    ("if_else", raised is None, handlers[1]),
                    ("finally_run", True, handlers[2]),
                )
                if on and h
            ]
            if ran != should:
                raise Bad(f"{what} ran {ran}")
    return n, 2 * n, 2 * n


# ---- databases --------------------------------------------------------

DB_OPS = (
    ("set_tag", ("a", b"bytes")),
    ("set_tag", ("a", {"x": [1, None]})),
    ("set_tag", ("b", "text"), dict(cache=False)),
    ("query_tag", ("a",)),
    ("query_tag", ("b",), dict(silent=True)),
    ("query_tag", ("a",), dict(cache=True)),
    ("pop_tag", ("a",)),
    ("pop_tag", ("a",), dict(silent=True)),
    ("rollback_tag", ("a",)),
    ("rollback_tag", ("a",), dict(cache=True)),
    ("clear_cache", ()),
    ("save_tag", ("a",)),
    ("save_tag", ("a",), dict(drop_cache=True)),
    ("save_database", ()),
    ("metatag", ("sub",)),
    ("metatag", ("path",)),
    ("delete_metatag", ("sub",)),
    ("sub.set_tag", ("a", b"inner")),
    ("sub.query_tag", ("a",)),
    ("load_tags", ()),
    ("load_database", (), dict(manifest=True)),
    ("reopen", ()),
    ("reopen", (), dict(preload=True)),
    ("filename", ("a",)),
    ("delete_database", ()),
)


async def databases(depth, first, mixed):
    """
    The same history in both forms gives equal outcomes & equal files.
    With `mixed`, databases are reopened in every mixture of forms.
    """
    n = traces = 0
    ops = DB_OPS

    async def open_db(form, root, **kw):
        if form:
            return await A.AsyncDatabase(KEY, path=root, **kw)
        return A.Database(KEY, path=root, **kw)

    async def run(forms, seq):
        nonlocal n
        calm()
        root = tempfile.mkdtemp(prefix="aiootp-c11-")
        got = []
        try:
            db = await open_db(forms[0], root)
            for form, o in zip(forms, seq):
                n += 1
                op, args, *kw = ops[o]
                kw = kw[0] if kw else {}
                is_async = isinstance(db, A.AsyncDatabase)
                if mixed:
                    # hand over to the next form through the disk
                    save = db.asave_database if is_async else db.save_database
                    await settle(save)
                    try:
                        db = await open_db(form, root)
                    except Exception as e:
                        got.append(type(e).__name__)
                        break
                form = isinstance(db, A.AsyncDatabase)
                if op == "reopen":
                    async def again():
                        nonlocal db
                        db = await open_db(form, root, **kw)
                    got.append(await settle(again))
                    continue
                target = db
                if op.startswith("sub."):
                    op = op[4:]
                    target = getattr(db, "sub", None)
                    if target is None:
                        got.append("no sub-database")
                        continue
                f = lambda *a, **k: getattr(target, ("a" if form else "") + op)(*a, **k)
                out = await settle(f, *args, **kw)
                if out[0] == "value" and isinstance(out[1], str) and "Database" in out[1]:
                    out = ("value", "database")
                got.append(out)
            try:
                got.append((sorted(db.tags), sorted(db.metatags), len(db), "a" in db))
                got.append((sorted(db.filenames), bool(db)))
            except Exception as e:
                got.append(type(e).__name__)
            got.append({k: v[0] for k, v in tree(root).items()})
        finally:
            shutil.rmtree(root, ignore_errors=True)
        return got

    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = (first, *rest)
        if mixed:
            masks = list(itertools.product((0, 1), repeat=depth))
        else:
            masks = [(0,) * depth, (1,) * depth]
        want = None
        for mask in masks:
            got = await run(mask, seq)
            traces += 1
            if want is None:
                want = got
            elif got != want:
                raise Bad(f"{[ops[o] for o in seq]} as {mask}: {got} / {want}")
    return traces, n, traces


# ---- passphrases & profiles -------------------------------------------


async def passphrases(part, parts):
    inline.use()
    n = 0
    word = b"a fine passphrase"

    def hashed(**kw):
        return A.Passcrypt(**{**dict(mb=1, cpu=1, cores=1, tag_size=16), **kw})

    for kw in ({}, dict(cpu=2), dict(mb=2, cores=2), dict(tag_size=33), dict(salt_size=5)):
        for pw, salt, aad in itertools.product(
            (word, b"short", b""), (b"salt", b"s", bytes(200)), (b"", b"x")
        ):
            n += 1
            if n % parts != part:
                continue
            pc = hashed(**kw)
            x = await settle(pc.new, pw, salt, aad=aad)
            y = await settle(pc.anew, pw, salt, aad=aad)
            if x != y:
                raise Bad(f"{kw} {pw} {salt}: {x} / {y}")
    calm()
    pc = hashed()
    made = [pc.hash_passphrase(word), await pc.ahash_passphrase(word)]
    for h in made:
        cases = [h, h[:-1], h + b"x", h[:9]]
        cases += [h[:i] + bytes([h[i] ^ 1]) + h[i + 1 :] for i in range(len(h))]
        for case in cases:
            for kw in ({}, dict(aad=b"x"), dict(ttl=0), dict(mb_allowed=range(2, 5))):
                if case is not h and kw:
                    continue
                n += 1
                if n % parts != part:
                    continue
                CTL.time_ns = lambda: NOW + 5
                x = await settle(pc.verify, case, word, **kw)
                y = await settle(pc.averify, case, word, **kw)
                if x != y:
                    raise Bad(f"verify {kw}: {x} / {y}")
    return n // parts, n // parts, n // parts


async def profiles(seqs, part, parts):
    inline.use()
    n = 0
    base = dict(username=b"user", passphrase=b"a fine passphrase", mb=1, cpu=1, cores=1)

    async def run(forms, seq):
        calm()
        root = tempfile.mkdtemp(prefix="aiootp-c11-")
        got = []
        try:
            for form, op in zip(forms, seq):
                cls = A.AsyncDatabase if form else A.Database
                kw = {**base, **op[1]}
                gen = cls.agenerate_profile if form else cls.generate_profile
                made = []

                async def make():
                    out = gen(path=root, **kw)
                    made.append(await out if form else out)

                got.append(await settle(make))
                if not made:
                    continue
                db = made[0]
                if op[0] == "save":
                    db["x"] = b"y"
                    got.append(await settle(lambda: (db.asave_database if form else db.save_database)()))
                elif op[0] == "delete":
                    got.append(await settle(lambda: (db.adelete_database if form else db.delete_database)()))
                else:
                    got.append(await settle(lambda: (db.aquery_tag if form else db.query_tag)("x", silent=True)))
                got = [("value", "db") if "Database" in str(g) else g for g in got]
            got.append({k: v for k, v in tree(root).items()})
        finally:
            shutil.rmtree(root, ignore_errors=True)
        return got

    for seq in seqs[part::parts]:
        want = None
        for mask in itertools.product((0, 1), repeat=len(seq)):
            got = await run(mask, [PROFILE_OPS[o] for o in seq])
            n += 1
            if want is None:
                want = got
            elif want != got:
                raise Bad(f"{seq} as {mask}: {got} / {want}")
    return n, n * len(seq), n


PROFILE_OPS = [("read", {}), ("save", {}), ("delete", {}), ("read", dict(aad=b"x"))]

SECTIONS = dict(
    functions=functions,
    long_functions=long_functions,
    objects=objects,
    woven_functions=woven_functions,
    woven_ciphers=woven_ciphers,
    one_shot=one_shot,
    streams=streams,
    authenticators=authenticators,
    paddings=paddings,
    files=files,
    contexts=contexts,
    databases=databases,
    passphrases=passphrases,
    profiles=profiles,
)


def jobs_for(thorough):
    jobs = []
    seqs = list(itertools.product(range(4), repeat=2))
    seqs += itertools.product((1,), range(4), range(4))
    if thorough:
        seqs += itertools.product((0, 2, 3), range(4), range(4))
    for part in range(8):
        jobs.append(("profiles", (seqs, part, 8)))
        jobs.append(("passphrases", (part, 8)))
    for first in range(len(DB_OPS)):
        jobs.append(("databases", (3 if not thorough else 4, first, False)))
        jobs.append(("databases", (2 if not thorough else 3, first, True)))
    jobs.append(("contexts", ()))
    jobs.append(("files", (3 if thorough else 2,)))
    for base in "CS":
        jobs.append(("one_shot", (base,)))
        jobs.append(("paddings", (base,)))
        for part in range(6):
            jobs.append(("woven_ciphers", (base, part, 6, thorough)))
        jobs.append(("streams", (base, 5 if thorough else 4)))
        jobs.append(("authenticators", (base, 5 if thorough else 4)))
    for family in FAMILIES:
        depth = dict(kdf=3, ids=4, curves=3, exchanges=4, permutations=2)[family]
        parts = 8
        for part in range(parts):
            jobs.append(("objects", (family, depth + thorough, part, parts)))
    for part in range(4):
        jobs.append(("functions", (part, 4)))
        jobs.append(("long_functions", (part, 4)))
    for part in range(8):
        jobs.append(("woven_functions", (part, 8, True)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0, 0), str(e)[:1500]
    finally:
        uncalm()


def main():
    check = Check("C11")
    check.assumptions = [
        "system randomness & clocks stand still, so that both forms see "
        "the same values",
        "jobs of the process pool run in the calling process",
    ]
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((states, moves, traces), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=states, transitions=moves, traces=traces)
        check.part(name, histories=traces, calls=moves)
        if problem and bad < 5:
            bad += 1
            check.violation(
                f"{name}:{i}",
                problem,
                dict(job=[name, args]),
            )
    for job in jobs[:: max(1, len(jobs) // 8)]:
        check.sample(repr(job)[:300])
    return check.finish()


def replay(data):
    out = work(data["job"])
    print(out)
    return 1 if out[1] else 0
