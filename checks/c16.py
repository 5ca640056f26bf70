"""
C16: canonical encoding & hashing never confuse two different inputs.
"""

import asyncio
import hashlib
import itertools

from mc import boot
from mc.report import Check, pmap
from .spellings import spellings

A = boot.load()
G = A.generics
HASHERS = dict(
    sha3_256=hashlib.sha3_256,
    sha3_512=hashlib.sha3_512,
    shake_128=hashlib.shake_128,
    shake_256=hashlib.shake_256,
    sha256=hashlib.sha256,
    blake2b=hashlib.blake2b,
)


class Bad(Exception):
    pass


def strings(letters, longest):
    return [
        bytes(x)
        for n in range(longest + 1)
        for x in itertools.product(letters, repeat=n)
    ]


def tuples(items, most):
    for n in range(most + 1):
        yield from itertools.product(items, repeat=n)


class Distinct:
    def __init__(self):
        self.seen = {}

    def add(self, blob, what):
        old = self.seen.setdefault(blob, what)
        if old != what:
            raise Bad(f"{old} & {what} both give {blob.hex()[:80]}")


async def packing(letters, longest, most, int_bytes, blocksizes, pads):
    """
    All tuples in one table: no two inputs share an encoding, each is a
    whole number of blocks & decodes to its input.
    """
    table = Distinct()
    n = 0
    for pad, blocksize in itertools.product(pads, blocksizes):
        for items in tuples(strings(letters, longest), most):
            n += 1
            kw = dict(blocksize=blocksize, pad=pad, int_bytes=int_bytes)
            blob = G.canonical_pack(*items, **kw)
            table.add(blob, (items, blocksize, pad, int_bytes))
            if len(blob) % blocksize:
                raise Bad(f"{items} {kw}: {len(blob)} bytes")
            if await G.acanonical_pack(*items, **kw) != blob:
                raise Bad(f"{items} {kw}: asynchronous encoding differs")
            back = G.canonical_unpack(blob)
            aback = await G.acanonical_unpack(blob)
            if tuple(back) != items or tuple(aback) != items:
                raise Bad(f"{items} {kw}: decodes to {back}, {aback}")
    return n, len(table.seen)


async def nested():
    """
    Items which are themselves encodings, parts of encodings, or length
    prefixes; & long items.
    """
    table = Distinct()
    n = 0
    parts = [b"", b"\x00" * 8, (1).to_bytes(8, "big"), (2).to_bytes(8, "big")]
    inner = [G.canonical_pack(*x) for x in tuples([b"", b"a"], 2)]
    parts += inner + [x[:-1] for x in inner] + [x[1:] for x in inner]
    parts += [a + b for a in inner[:3] for b in inner[:3]]
    parts += [bytes(k) for k in (254, 255, 256, 257, 65535, 65536)]
    parts = list(dict.fromkeys(parts))
    for blocksize in (1, 8, 72, 168):
        for items in tuples(parts, 2):
            n += 1
            blob = G.canonical_pack(*items, blocksize=blocksize)
            table.add(hashlib.sha256(blob).digest(), (items, blocksize))
            if await G.acanonical_pack(*items, blocksize=blocksize) != blob:
                raise Bad(f"{items} {blocksize}: asynchronous encoding differs")
            for back in (G.canonical_unpack(blob), await G.acanonical_unpack(blob)):
                if tuple(back) != items:
                    raise Bad(f"{[len(i) for i in items]} {blocksize}: lost")
    for blocksize in range(1, 400):
        for size in (0, 1, 7):
            for pad in (b"\x00", b"\x01", b"z"):
                n += 1
                items = (pad * size, b"x", pad * size)
                blob = G.canonical_pack(*items, blocksize=blocksize, pad=pad)
                table.add(hashlib.sha256(blob).digest(), (items, blocksize, pad))
                if tuple(G.canonical_unpack(blob)) != items or len(blob) % blocksize:
                    raise Bad(f"{items} {blocksize} {pad}")
    return n, n


def parse(blob):
    """
    What an encoding says, read independently; `None` when an item isn't
    all there or the padding is wrong. A cut off number at the very end
    reads as what's left of it.
    """
    at = 1
    width = blob[0] if blob else 0

    def number():
        nonlocal at
        at += width
        return int.from_bytes(blob[at - width : at], "big")

    items = []
    for _ in range(number()):
        size = number()
        items.append(blob[at : at + size])
        at += size
        if size and at > len(blob):
            return None
    if len(items) < 2 or len(items[1]) != 1:
        return None
    blocksize = int.from_bytes(items[0], "big")
    if not blocksize or len(blob) % blocksize:
        return None
    return None if set(blob[at:]) - set(items[1]) else tuple(items[2:])


async def malformed(items, int_bytes, blocksizes):
    """
    Every one-byte change, truncation & extension of an encoding: what's
    accepted is what the bytes say.
    """
    n = accepted = 0
    for blocksize, pad in itertools.product(blocksizes, (b"\x00", b"\x02")):
        blob = G.canonical_pack(
            *items, blocksize=blocksize, pad=pad, int_bytes=int_bytes
        )
        if parse(blob) != tuple(items):
            raise Bad(f"{items} {blocksize} {pad}: unexpected encoding")
        wrong = [blob[:k] for k in range(len(blob))]
        wrong += [blob + bytes([b]) * k for b in range(256) for k in (1, blocksize)]
        wrong += [
            blob[:i] + bytes([v]) + blob[i + 1 :]
            for i in range(len(blob))
            for v in range(256)
        ]
        for other in wrong:
            n += 1
            for form in (G.canonical_unpack, G.acanonical_unpack):
                try:
                    back = form(other)
                    back = tuple(await back if asyncio.iscoroutine(back) else back)
                except Exception:
                    continue
                accepted += 1
                if parse(other) != back:
                    raise Bad(
                        f"{other.hex()}: accepted as {back}, says {parse(other)}"
                    )
    if accepted < 100:
        raise Bad(f"only {accepted} accepted")
    return n, n


async def magnitudes(int_bytes):
    """
    Counts, sizes & block sizes around the ends of what numbers of that
    many bytes can tell: they're encoded right, or refused.
    """
    table = Distinct()
    n = 0
    counts = [0, 1, 2, 3, 9, 30, 252, 253, 254, 255, 256, 257, 300, 510, 512, 1000]
    ends = [0, 1, 2, 127, 128, 253, 254, 255, 256, 257, 511, 512, 513]
    ends += [65533, 65534, 65535, 65536, 65537, 131072]
    cases = [((bytes([k % 7]) * w,) * k, 1) for k in counts for w in (0, 1, 3)]
    cases += [((b"a" * k, *rest), 1) for k in ends for rest in ((), (b"",), (b"a",))]
    cases += [((b"b",), k) for k in ends[1:]]
    cases += [((b"a" * k,), l) for k in ends[-6:-1] for l in ends[-6:-1]]
    fits = (1 << 8 * int_bytes) - 1
    for items, blocksize in dict.fromkeys(cases):
        n += 1
        what = ([len(x) for x in items][:3], len(items), blocksize, int_bytes)
        good = max(len(items) + 2, blocksize, *map(len, items), 0) <= fits
        kw = dict(blocksize=blocksize, int_bytes=int_bytes)
        blobs = []
        for form in (G.canonical_pack, G.acanonical_pack):
            try:
                out = form(*items, **kw)
                blobs.append(await out if asyncio.iscoroutine(out) else out)
            except OverflowError:
                if good:
                    raise Bad(f"{what} was refused") from None
        if not blobs:
            continue
        if blobs[0] != blobs[-1] or len(blobs) != 2 or len(blobs[0]) % blocksize:
            raise Bad(f"{what}: {[x[:40] for x in blobs]}")
        blob = blobs[0]
        table.add(hashlib.sha256(blob).digest(), (items, blocksize))
        for back in (G.canonical_unpack(blob), await G.acanonical_unpack(blob)):
            if tuple(back) != items:
                raise Bad(f"{what}: decodes to {len(back)} other items")
    for name, hasher in HASHERS.items():
        kw = dict(size=32) if "shake" in name else {}
        for items, _ in dict.fromkeys(cases):
            n += 1
            digest = G.hash_bytes(*items, hasher=hasher, **kw)
            if await G.ahash_bytes(*items, hasher=hasher, **kw) != digest:
                raise Bad(f"{name}: asynchronous digest of {len(items)} items differs")
            table.add(name.encode() + digest, (name, items))
    return n, len(table.seen)


async def blocks():
    """
    Padding to whole blocks never shortens or adds a needless block.
    """
    n = 0
    for blocksize in range(1, 70):
        for size in range(0, 210):
            n += 1
            data = bytes([7]) * size
            out = G.canon.fullblock_ljust(data, blocksize, pad=b"\x01")
            want = -(-size // blocksize) * blocksize
            aout = await G.canon.afullblock_ljust(data, blocksize, pad=b"\x01")
            if out != data + b"\x01" * (want - size) or out != aout:
                raise Bad(f"{size} in blocks of {blocksize}: {len(out)}, {len(aout)}")
    return n, n


async def keys():
    """
    Encoded keys of all small shapes.
    """
    n = 0
    for blocksize in (1, 2, 7, 8, 17, 72, 136, 144, 168):
        table = Distinct()
        for pad in (b"\x00", b"\x01", b"k"):
            letters = [0, 1, pad[0], 9]
            shapes = strings(sorted(set(letters)), 4)[1:]
            shapes += [bytes([b]) * k for b in (0, 1, pad[0], 255) for k in range(5, 400)]
            shapes += [s + k.to_bytes(8, "little") for s in shapes[:40] for k in range(1, 30)]
            for key in dict.fromkeys(shapes):
                n += 1
                blob = G.canon.encode_key(key, blocksize, pad=pad)
                table.add(blob, (key, pad))
                if await G.canon.aencode_key(key, blocksize, pad=pad) != blob:
                    raise Bad(f"{key} {blocksize} {pad}: asynchronous form differs")
                if len(blob) % blocksize or not blob.startswith(key):
                    raise Bad(f"{key} {blocksize} {pad}: {len(blob)}")
    for key, blocksize in itertools.product((b"", None), (1, 72)):
        for form in (G.canon.encode_key, G.canon.aencode_key):
            try:
                out = form(key, blocksize)
                await out if asyncio.iscoroutine(out) else out
            except Exception:
                n += 1
            else:
                raise Bad(f"{key!r} accepted as a key")
    return n, n


async def hashes(name, letters, longest, most):
    """
    Digests & their prefixes depend on every item, boundary, position,
    size, pad & key.
    """
    hasher = HASHERS[name]
    xof = "shake" in name
    table = Distinct()
    n = 0
    small = list(tuples(strings(letters, longest), most))
    few = list(tuples([b"", b"\x00", b"ab"], 2))
    jobs = [(x, None, b"\x00", 32 if xof else None) for x in small]
    keys_ = [None, b"k", b"\x00", b"\x00\x00", b"kk", b"k\x00", b"k" * 200]
    pads = [b"\x00", b"\x01", b"k"]
    sizes = [8, 9, 16, 31, 32, 33, 64, 200] if xof else [None]
    for text in spellings():
        jobs.append(((text,), None, b"\x00", 32 if xof else None))
        jobs.append(((b"ab", text), None, b"\x00", 32 if xof else None))
        jobs.append(((text, b"ab"), text, b"\x00", 32 if xof else None))
    jobs += itertools.product(few, keys_, pads, sizes)
    for items, key, pad, size in dict.fromkeys(jobs):
        n += 1
        kw = dict(hasher=hasher, pad=pad)
        if key is not None:
            kw["key"] = key
        if size is not None:
            kw["size"] = size
        digest = G.hash_bytes(*items, **kw)
        if len(digest) != (size or hasher().digest_size):
            raise Bad(f"{kw}: {len(digest)} bytes")
        table.add(digest[:8], (items, key, pad, size))
        if await G.ahash_bytes(*items, **kw) != digest:
            raise Bad(f"{items} {kw}: asynchronous digest differs")
        if G.hash_bytes(*items, **kw) != digest:
            raise Bad(f"{items} {kw}: not deterministic")
    return n, len(table.seen)


async def key_bits(name):
    """
    Every bit of keys around block boundaries matters.
    """
    hasher = HASHERS[name]
    xof = "shake" in name
    kw = dict(size=32) if xof else {}
    block = hasher().block_size
    n = 0
    table = Distinct()
    for size in (1, 16, block - 17, block - 16, block - 1, block, block + 1, 2 * block):
        key = bytearray(i % 251 for i in range(size))
        table.add(G.hash_bytes(b"x", key=bytes(key), hasher=hasher, **kw)[:8], size)
        for bit in range(size * 8):
            n += 1
            key[bit // 8] ^= 1 << (bit % 8)
            out = G.hash_bytes(b"x", key=bytes(key), hasher=hasher, **kw)
            if await G.ahash_bytes(b"x", key=bytes(key), hasher=hasher, **kw) != out:
                raise Bad(f"key of {size}, bit {bit}: asynchronous digest differs")
            table.add(out[:8], (size, bit))
            key[bit // 8] ^= 1 << (bit % 8)
    return n, n


async def domains():
    """
    Encoded constants depend on each of their inputs; the library's own
    constants are pairwise different.
    """
    D = G.Domains
    table = Distinct()
    n = 0
    texts = [b"", b"a", b"b", b"ab", b"\x00", b"a\x00"]
    for c, d, a in itertools.product(texts, repeat=3):
        for size, pad in itertools.product((8, 9, 32, 168), (b"\x00", b"p")):
            n += 1
            out = D.encode_constant(c, size=size, domain=d, aad=a, pad=pad)
            if len(out) != size:
                raise Bad(f"{size}: {len(out)} bytes")
            table.add(out[:8], (c, d, a, size, pad))
            aout = await D.aencode_constant(c, size=size, domain=d, aad=a, pad=pad)
            if aout != out:
                raise Bad(f"{c, d, a, size, pad}: asynchronous form differs")
    for cls in (D, A.databases.dbdomains.DBDomains):
        values = {}
        for name in dir(cls):
            value = getattr(cls, name)
            if isinstance(value, bytes) and name.isupper() and name[0] != "_":
                n += 1
                if value in values:
                    raise Bad(f"{name} & {values[value]} are equal")
                values[value] = name
    if n < 100:
        raise Bad("the library's constants weren't found")
    return n, n


async def index_keys():
    """
    Keys of file names depend on the name, each item & the key.
    """
    from aiootp import _paths as P

    table = Distinct()
    n = 0
    items = list(tuples([b"", b"a", b"b", b"ab"], 2))
    keys_ = [None, b"a", b"b", b"\x00", b"a" * 168]
    for name, aad, key in itertools.product(("", "a", "b", "ab", "\x00"), items, keys_):
        for size in (16, 32):
            n += 1
            got = P.filename_to_index_key(name, *aad, key=key, size=size)
            table.add(got[:16], (name, aad, key, size))
            if len(got) != size:
                raise Bad(f"{size}: {len(got)} bytes")
            if await P.afilename_to_index_key(name, *aad, key=key, size=size) != got:
                raise Bad(f"{name!r} {aad} {key} {size}: asynchronous form differs")
    return n, n


async def derived(names, domains, keys_, datas):
    """
    Keys of the key derivation objects: each depends on where its domain,
    its key, its data & the asked data begin & end.
    """
    from . import c17

    try:
        return await c17.separation(names, domains, keys_, datas, 1, False)
    except c17.Bad as e:
        raise Bad(str(e)) from None


SECTIONS = dict(
    magnitudes=magnitudes,
    index_keys=index_keys,
    derived=derived,
    packing=packing,
    nested=nested,
    malformed=malformed,
    blocks=blocks,
    keys=keys,
    hashes=hashes,
    key_bits=key_bits,
    domains=domains,
)


def jobs_for(thorough):
    jobs = []
    more = 1 if thorough else 0
    # one-byte lengths over the small numbers: every confusion of
    # lengths, counts & content is within reach
    for pads in ((b"\x00",), (b"\x01",), (b"\x02",), (b"\xff",)):
        for bs in ((1, 2), (3, 4), (5, 7), (8, 12)):
            jobs.append(("packing", ((0, 1, 2, 3), 3, 2, 1, bs, pads)))
            jobs.append(("packing", ((0, 1), 1, 7 + 2 * more, 1, bs, pads)))
            jobs.append(("packing", ((0, 1, 2), 1 + more, 4, 1, bs, pads)))
    for bs in ((1, 2), (3, 8), (16, 72), (136, 168)):
        jobs.append(("packing", ((0, 1, 8), 2, 2 + more, 8, bs, (b"\x00", b"a"))))
        jobs.append(("packing", ((0, 2), 2, 3, 2, bs, (b"\x00", b"\x02"))))
    for items in ((), (b"",), (b"a",), (b"\x00", b"\x02"), (b"", b"abc", b"\x01" * 5)):
        for width in (1, 2, 8):
            jobs.append(("malformed", (items, width, (1, 2, 5, 8, 32))))
    jobs += [("nested", ()), ("blocks", ()), ("index_keys", ()), ("keys", ()), ("domains", ())]
    # all ways to cut the same bytes into a domain, a key & data
    cut = [b"", b"d", b"k", b"dk", b"kd", b"kk", b"kkd", b"d" * 2]
    for name in ("DomainKDF", "OtherKDF"):
        for data in ((), (b"",), (b"d",), (b"k",)):
            jobs.append(("derived", ((name,), cut, cut[1:], (data,))))
    for width in (1, 2, 3, 4, 8, 9, 16, 255):
        jobs.append(("magnitudes", (width,)))
    for name in HASHERS:
        jobs.append(("hashes", (name, (0, 1, 97), 2, 3 + more)))
        jobs.append(("key_bits", (name,)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0), str(e)[:1500]


def main():
    check = Check("C16", "exploration")
    check.rule = (
        "one evaluation is one input encoded or hashed & looked up among "
        "all others of its job; inputs are all different"
    )
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((n, distinct), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(evaluations=n)
        check.distinct_extra += distinct
        check.part(name, inputs=n)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    for job in jobs[::5]:
        check.sample(repr(job))
    return check.finish()


def replay(data):
    out = work(jobs_for(data["tier"] == "thorough")[data["job"]])
    print(out)
    return 1 if out[1] else 0
