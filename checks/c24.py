"""
C24: encodings, conversions & batching lose nothing.
"""

import asyncio
import base64
import collections
import importlib
import io
import itertools
import os
import shutil

from mc import boot
from mc.report import Check, pmap
from .c12 import scratch

A = boot.load()
IO = A.generics.ByteIO
tr = importlib.import_module("aiootp.generics.transform")
gt = importlib.import_module("aiootp._gentools")
canon = importlib.import_module("aiootp.generics.canon")
T = importlib.import_module("aiootp._constants.datasets").Tables


class Bad(Exception):
    pass


def steps(coroutine):
    """
    Runs a coroutine which only ever sleeps.
    """
    try:
        while True:
            coroutine.send(None)
    except StopIteration as e:
        return e.value


def both(name, module, *args, **kw):
    """
    The common result of both forms, or ("raised",).
    """
    out = []
    for form in ("", "a"):
        call = getattr(module, form + name if not name.startswith("_") else f"_{form}{name[1:]}")
        try:
            got = call(*args, **kw)
            out.append(steps(got) if form else got)
        except Exception:
            out.append(("raised",))
    if out[0] != out[1] or type(out[0]) is not type(out[1]):
        raise Bad(f"{name}{args}{kw}: {out[0]!r} but asynchronously {out[1]!r}")
    return out[0]


async def acollect(gen, limit=None):
    out = []
    async for x in gen:
        out.append(x)
        if limit is not None and len(out) >= limit:
            break
    return out


def gathered(name, *args, limit=None, only=None, **kw):
    out = []
    for form in ("", "a"):
        if only is not None and form != only:
            continue
        call = getattr(gt, form + name)
        # fresh sources for each
        given = [x() if callable(x) else x for x in args]
        if form:
            out.append(steps(acollect(call(*given, **kw), limit)))
        else:
            out.append(list(itertools.islice(call(*given, **kw), limit)))
    norm = [[tuple(x) if name == "zip" else x for x in o] for o in out]
    if any(x != norm[0] for x in norm):
        raise Bad(f"{name}{args}{kw}: {norm[0]!r} but asynchronously {norm[1]!r}")
    return norm[0]


# ---- numbers ----------------------------------------------------------

TABLES = dict(
    ASCII_95=T.ASCII_95,
    ASCII_128=T.ASCII_128,
    BASE_36=T.BASE_36,
    BASE_38=T.BASE_38,
    BASE_64=T.BASE_64,
    BYTES=T.BYTES,
    HEX=T.HEX,
    ONION_CHARS=T.ONION_CHARS,
    URL_SAFE=T.URL_SAFE,
    own="zyx!",
    own_bytes=b"\x00\xff\x10",
)


def digits(number, table):
    out = []
    while True:
        number, d = divmod(number, len(table))
        out.append(table[d : d + 1])
        if not number:
            return table[:0].join(out[::-1])


def numbers(table_name, bases, upto):
    table = TABLES[table_name]
    n = 0
    if len(set(table)) != len(table):
        raise Bad(f"{table_name} has the same character twice")
    for base in bases:
        used = table[:base]
        kws = [dict(base=base, table=table)]
        if base == len(table):
            kws.append(dict(table=table))
            if table_name == "ASCII_95":
                kws.append(dict())
        elif base < len(table):
            kws.append(dict(table=used))
        edges = set()
        for k in range(1, 40):
            edges |= {base**k - 1, base**k, base**k + 1, 2**k, 256**k - 1, base**k * (base - 1)}
        for number in itertools.chain(range(upto), sorted(edges)):
            for kw in kws:
                n += 1
                text = both("int_as_base", tr, number, **kw)
                if text != digits(number, used):
                    raise Bad(f"{number} as {kw} is {text!r}")
                back = both("base_as_int", tr, text, **kw)
                if back != number:
                    raise Bad(f"{text!r} as {kw} is {back}, not {number}")
        zero = used[:1]
        for number in range(3):
            text = digits(number, used)
            for kw in kws:
                if both("base_as_int", tr, zero * 3 + text, **kw) != number:
                    raise Bad(f"leading zeros of {text!r} as {kw}")
        # what isn't a digit
        others = [chr(i) for i in range(0, 256)]
        if type(table) is bytes:
            others = [bytes([i]) for i in range(256)]
        for other in others:
            if other in used:
                continue
            for text in (other, zero + other, other + zero, used[-1:] + other + used[-1:]):
                n += 1
                if both("base_as_int", tr, text, **kws[0]) != ("raised",):
                    raise Bad(f"{text!r} was taken as a number of {kws[0]}")
    return n


# ---- bytes ------------------------------------------------------------


def byte_values(deep):
    yield b""
    for i in range(256):
        yield bytes([i])
    edge = (0, 1, 0x3E, 0x3F, 0x7F, 0x80, 0xFB, 0xFF)
    for i, j in itertools.product(range(256), range(256) if deep else (*edge, 0x20, 0x3D)):
        yield bytes([i, j])
    for k in (3, 4) if not deep else (3, 4, 5):
        for x in itertools.product(edge, repeat=k):
            yield bytes(x)
    for size in range(5, 200):
        for fill in (0, 1, 0xFF, 0x3E, 0xFB):
            yield bytes([fill]) * size
        yield bytes(size - 1) + b"\x01"
        yield b"\x01" + bytes(size - 1)
        yield bytes(x % 256 for x in range(size))


def codecs(part, parts, deep):
    n = 0
    for k, value in enumerate(byte_values(deep)):
        if k % parts != part:
            continue
        n += 3
        url = both("bytes_to_urlsafe", IO, value)
        if url != base64.urlsafe_b64encode(value).rstrip(b"=") or type(url) is not bytes:
            raise Bad(f"{value} is {url} in an url")
        for form in (url, url.decode()):
            if both("urlsafe_to_bytes", IO, form) != value:
                raise Bad(f"{form!r} isn't read as {value}")
        name = both("bytes_to_filename", IO, value)
        if set(name) - set(T.BASE_38) or type(name) is not str or not name:
            raise Bad(f"{value} is named {name!r}")
        back = both("filename_to_bytes", IO, name)
        if back.rjust(len(value), b"\x00") != value or len(back) > len(value):
            raise Bad(f"{name!r} isn't read as {value}")
        if value:
            phrase = both("_bytes_to_phrase", IO, value)
            if len(phrase.split(b" ")) != len(value):
                raise Bad(f"{value} is the phrase {phrase}")
            for form in (phrase, b" " + phrase + b"\n"):
                if both("_phrase_to_bytes", IO, form) != value:
                    raise Bad(f"{form} isn't read as {value}")
    return n


def names_differ(deep):
    """
    File names of equally sized values are different, in any letter case.
    """
    n = 0
    for size in (1, 2):
        seen = set()
        for x in itertools.product(range(256), repeat=size):
            n += 1
            seen.add(IO.bytes_to_filename(bytes(x)).casefold())
        if len(seen) != 256**size:
            raise Bad(f"{size} byte values share file names")
    seen = {IO._bytes_to_phrase(bytes([i])) for i in range(256)}
    if len(seen) != 256:
        raise Bad("bytes share words")
    return n


# ---- files ------------------------------------------------------------


def file_histories(first, depth):
    """
    All histories of writing, appending & reading in both forms.
    """
    n = 0
    datas = (b"", b"ab", bytes(range(256)) * 33)
    ops = [(op, form, d) for op in ("write", "append") for form in ("", "a") for d in datas]
    root = scratch()
    loop = asyncio.new_event_loop()

    def call(form, name, *args, **kw):
        got = getattr(IO, form + name)(*args, **kw)
        return loop.run_until_complete(got) if form else got

    try:
        k = 0
        for tail in itertools.product(ops, repeat=depth - 1):
            k += 1
            path = os.path.join(root, f"f{k}")
            model = None
            for op, form, data in (ops[first], *tail):
                n += 1
                call(form, op, path, data)
                model = data if op == "write" else (model or b"") + data
            for form in ("", "a"):
                if call(form, "read", path) != model:
                    raise Bad(f"{(ops[first], *tail)}: read otherwise")
                for size in (0, 1, 2, 3, len(model), len(model) + 1):
                    if call(form, "read", path, size=size) != model[:size]:
                        raise Bad(f"{(ops[first], *tail)}: {size} bytes read otherwise")
            with open(path, "rb") as f:
                if f.read() != model:
                    raise Bad(f"{(ops[first], *tail)}: the file holds something else")
            os.unlink(path)
    finally:
        loop.close()
        shutil.rmtree(root, ignore_errors=True)
    return n


# ---- pieces -----------------------------------------------------------


def batches(lengths, sizes):
    n = 0
    for length in lengths:
        data = bytes((7 * x + 1) % 256 for x in range(length))
        text = "".join(chr(33 + x % 90) for x in range(length))
        for size in sizes:
            n += 1
            expected = [data[i : i + size] for i in range(0, length, size)]
            if gathered("batch", data, size=size) != expected:
                raise Bad(f"batch of {length} by {size}")
            expected_text = [text[i : i + size] for i in range(0, length, size)]
            if gathered("batch", text, size=size, buffer_type=io.StringIO) != expected_text:
                raise Bad(f"batch of {length} characters by {size}")
            for kind in (bytes, bytearray, list, tuple):
                source = kind(data)
                whole = [source[i : i + size] for i in range(0, length, size)]
                if gathered("resize", source, size) != whole:
                    raise Bad(f"resize of {length} by {size}")
                for blocks in (1, 2, 3, len(whole) - 1, len(whole), len(whole) + 1):
                    if blocks < 1:
                        continue
                    n += 1
                    if gathered("resize", source, size, blocks=blocks) != whole[:blocks]:
                        raise Bad(f"{blocks} blocks of {length} by {size}")
    return n


def mixes(lengths, sizes):
    n = 0
    for length, size in itertools.product(lengths, sizes):
        for data in (
            bytes(range(1, length + 1)),
            b"\xff" * length,
            bytes(length),
        ):
            n += 1
            expected = 0
            for i in range(0, length, size):
                expected ^= int.from_bytes(data[i : i + size], "big")
            if both("xi_mix", tr, data, size=size) != expected.to_bytes(size, "big"):
                raise Bad(f"mix of {data} to {size}")
            base = tr.xi_mix(data, size=size)
            for i in range(length):
                n += 1
                other = data[:i] + bytes([data[i] ^ 0x10]) + data[i + 1 :]
                if tr.xi_mix(other, size=size) == base:
                    raise Bad(f"byte {i} of {length} doesn't count in {size}")
        block = both("fullblock_ljust", canon, bytes(range(1, length + 1)), size, pad=b"\xaa")
        filled = length + (-length) % size
        if block != bytes(range(1, length + 1)).ljust(filled, b"\xaa"):
            raise Bad(f"{length} bytes filled to blocks of {size}: {block}")
    if both("bytes_are_equal", canon, b"ab", b"ab") is not True:
        raise Bad("equal bytes")
    return n


def equals():
    n = 0
    values = [bytes(x) for k in range(4) for x in itertools.product((0, 1, 255), repeat=k)]
    values += ["", "a", "ab"]
    for a, b in itertools.product(values, repeat=2):
        if type(a) is type(b):
            n += 1
            if both("bytes_are_equal", canon, a, b) is not (a == b):
                raise Bad(f"{a!r} & {b!r} compared")
    return n


# ---- iterables --------------------------------------------------------


class Sync:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class Async:
    def __init__(self, items):
        self.items = items

    async def __aiter__(self):
        for x in self.items:
            await asyncio.sleep(0)
            yield x


FALSY = (0, "", None, b"", False, (), 0.0)


def sources(items):
    """
    All kinds of sources of the same items: (needs the async form, maker)
    """
    items = list(items)

    def generator():
        yield from items

    async def agenerator():
        for x in items:
            yield x

    out = [
        (False, lambda: list(items)),
        (False, lambda: iter(items)),
        (False, lambda: Sync(items)),
        (False, generator),
        (False, lambda: dict(enumerate(items)).values()),
        (True, lambda: Async(items)),
        (True, agenerator),
    ]
    return out


def iterables(length):
    n = 0
    lists = [list(range(length)), [FALSY[i % len(FALSY)] for i in range(length)]]
    for items in lists:
        for needs, make in sources(items):
            only = "a" if needs else None
            n += 1
            if gathered("unpack", make, only=only) != items:
                raise Bad(f"unpack of {items}")
            for limit in range(1, 3 * length + 2):
                n += 1
                want = [items[i % length] for i in range(limit)] if items else []
                got = gathered("cycle", make, only=only, limit=limit)
                if got != want:
                    raise Bad(f"{limit} of cycled {items}: {got}")
        for other in range(length + 2):
            second = [("x", i) for i in range(other)]
            for (n1, m1), (n2, m2) in itertools.product(sources(items), sources(second)):
                only = "a" if n1 or n2 else None
                n += 1
                if gathered("collate", m1, m2, only=only) != items + second:
                    raise Bad(f"collate of {items} & {second}")
                if steps(acollect(gt.azip(m1(), m2()))) != [list(x) for x in zip(items, second)]:
                    raise Bad(f"zip of {items} & {second}")
                if gathered("collate", m1, m2, m1, only=only) != items + second + items:
                    raise Bad(f"collate of {items} & {second} & {items}")
        queue = lambda: collections.deque(items)
        if gathered("popleft", queue) != items:
            raise Bad(f"popleft of {items}")
        for limit in range(1, length + 1):
            for form in ("", "a"):
                n += 1
                q = collections.deque(items)
                gen = getattr(gt, form + "popleft")(q)
                if form:
                    got = steps(acollect(gen, limit))
                else:
                    got = list(itertools.islice(gen, limit))
                if got != items[:limit] or list(q) != items[limit:]:
                    raise Bad(f"{limit} taken from {items}: {got}, {q}")
    if gathered("collate") != []:
        raise Bad("nothing collated")
    return n


def long_ones(length):
    """
    Longer sequences, around the sizes which buffers tend to have.
    """
    n = 0
    items = [(i, i % 7) for i in range(length)]
    data = bytes((i * 31 + i // 256) % 256 for i in range(length))
    for needs, make in sources(items):
        only = "a" if needs else None
        n += 4
        if gathered("unpack", make, only=only) != items:
            raise Bad(f"unpack of {length}")
        for limit in (length - 1, length, length + 1, 3 * length + 1):
            want = [items[i % length] for i in range(limit)]
            if gathered("cycle", make, only=only, limit=limit) != want:
                raise Bad(f"{limit} of {length} cycled")
        if gathered("collate", make, make, only=only) != items + items:
            raise Bad(f"collate of {length}")
        if steps(acollect(gt.azip(make(), make()))) != [[x, x] for x in items]:
            raise Bad(f"zip of {length}")
    if gathered("popleft", lambda: collections.deque(items)) != items:
        raise Bad(f"popleft of {length}")
    for size in (1, 2, 63, 64, 65, 255, 256, 257, length - 1, length, length + 1):
        if size < 1:
            continue
        want = [data[i : i + size] for i in range(0, length, size)]
        for name, args in (("batch", dict(size=size)), ("resize", dict(size=size))):
            n += 1
            if gathered(name, lambda: data, **args) != want:
                raise Bad(f"{name} of {length} by {size}")
        for blocks in {1, 2, len(want) - 1, len(want), len(want) + 1}:
            if blocks < 1:
                continue
            n += 1
            got = gathered("resize", lambda: data, size=size, blocks=blocks)
            if got != want[:blocks]:
                raise Bad(f"{blocks} blocks of {length} by {size}: {len(got)}")
    for size in (8, 32):
        wants = 0
        for i in range(0, length, size):
            wants ^= int.from_bytes(data[i : i + size], "big")
        n += 1
        if both("xi_mix", tr, data, size=size) != wants.to_bytes(size, "big"):
            raise Bad(f"mixing {length} bytes to {size}")
    return n


def counts():
    n = 0
    for start in (0, 1, -3, 5, 254, 65534, 2**64 - 3, 2**70):
        n += 1
        if gathered("count", start=start, limit=6) != list(range(start, start + 6)):
            raise Bad(f"count from {start}")
        for size, order in itertools.product((1, 2, 8, 16), ("big", "little")):
            if start < 0 or start + 5 >= 256**size:
                continue
            n += 1
            want = [x.to_bytes(size, order) for x in range(start, start + 6)]
            kw = dict(start=start, size=size, byte_order=order)
            if gathered("bytes_count", limit=6, **kw) != want:
                raise Bad(f"bytes count of {kw}")
    for args in itertools.chain.from_iterable(
        itertools.product(range(0, 7), repeat=k) for k in (1, 2, 3)
    ):
        if len(args) == 3 and not args[2]:
            continue
        n += 1
        if gathered("range", *args, only="a") != list(range(*args)):
            raise Bad(f"range of {args}")
        for size, order in itertools.product((1, 2, 8), ("big", "little")):
            want = [x.to_bytes(size, order) for x in range(*args)]
            if gathered("bytes_range", *args, size=size, byte_order=order) != want:
                raise Bad(f"bytes range of {args}")
    for args in ((-3,), (3, -3, -1), (5, 1, -2)):
        if gathered("range", *args, only="a") != list(range(*args)):
            raise Bad(f"range of {args}")
    return n


def side_by_side(depth):
    """
    Every interleaving of the steps of two users of one kind each.
    """
    n = 0
    items = list(range(4))
    makers = dict(
        batch=lambda f: getattr(gt, f + "batch")(b"abcdefg", size=2),
        resize=lambda f: getattr(gt, f + "resize")(b"abcdefg", 2),
        unpack=lambda f: getattr(gt, f + "unpack")(items),
        cycle=lambda f: getattr(gt, f + "cycle")(items),
        count=lambda f: getattr(gt, f + "count")(),
        bytes_count=lambda f: getattr(gt, f + "bytes_count")(),
        bytes_range=lambda f: getattr(gt, f + "bytes_range")(9),
        collate=lambda f: getattr(gt, f + "collate")(items, items),
    )
    end = "end"

    def step(gen, form):
        try:
            return steps(gen.__anext__()) if form else next(gen)
        except (StopIteration, StopAsyncIteration):
            return end

    for name, make in makers.items():
        for f1, f2 in itertools.product(("", "a"), repeat=2):
            alone = []
            gen = make("")
            for _ in range(depth):
                alone.append(step(gen, ""))
            for order in itertools.product((0, 1), repeat=depth):
                users = [(make(f1), f1, []), (make(f2), f2, [])]
                for who in order:
                    n += 1
                    gen, form, got = users[who]
                    got.append(step(gen, form))
                for gen, form, got in users:
                    if got != alone[: len(got)]:
                        raise Bad(f"{name} {order}: {got}")
    return n


SECTIONS = dict(
    numbers=numbers,
    codecs=codecs,
    names_differ=names_differ,
    file_histories=file_histories,
    batches=batches,
    mixes=mixes,
    equals=equals,
    iterables=iterables,
    counts=counts,
    long_ones=long_ones,
    side_by_side=side_by_side,
)


def jobs_for(thorough):
    jobs = []
    for name, table in TABLES.items():
        bases = range(2, len(table) + 1)
        if len(table) > 64 and not thorough:
            bases = [*range(2, 12), 16, 32, 36, 58, 62, 64, 85, 94, 95, 127, 128, 255, 256]
            bases = [b for b in bases if b <= len(table)]
        for i in range(0, len(bases), 6):
            jobs.append(("numbers", (name, list(bases[i : i + 6]), 5000 if thorough else 400)))
    for i in range(8):
        jobs.append(("codecs", (i, 8, thorough)))
    jobs.append(("names_differ", (thorough,)))
    for first in range(12):
        jobs.append(("file_histories", (first, 3 if thorough else 2)))
    top = 80 if thorough else 40
    for i in range(8):
        jobs.append(("batches", (list(range(i, top, 8)), list(range(1, top + 2)))))
    for i in range(4):
        jobs.append(("mixes", (list(range(i, top, 4)), [1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 64])))
    jobs.append(("equals", ()))
    for length in range(6 if thorough else 5):
        jobs.append(("iterables", (length,)))
    for length in (2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097):
        jobs.append(("long_ones", (length,)))
    jobs.append(("counts", ()))
    jobs.append(("side_by_side", (12 if thorough else 9,)))
    return jobs


def work(job):
    name, args = job
    try:
        return SECTIONS[name](*args), None
    except Bad as e:
        return 0, str(e)[:1500]


def main():
    check = Check("C24", "exploration")
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, (n, problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(evaluations=n)
        check.distinct_extra += n
        check.part(name, jobs=1, cases=n)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    check.rule = (
        "every enumerated value, size, source & history is a case of its own; each is "
        "compared with an independently computed result, in both forms"
    )
    for job in jobs[::10]:
        check.sample(repr(job)[:200])
    return check.finish()


def replay(data):
    out = work(jobs_for(data["tier"] == "thorough")[data["job"]])
    print(out)
    return 1 if out[1] else 0
