"""
C18: permutations & sequence identifiers are reversible & collision-free.
"""

import asyncio
import itertools

from mc import boot
from mc.report import Check, pmap

A = boot.load()
CTL = boot.CTL
Affine = A._permutations.affine_permutation.AffinePermutation
TYPES = dict(
    affine=Affine,
    chain=A._permutations.affine_xor_chain.AffineXORChain,
    fast=A._permutations.FastAffineXORChain,
)
SequenceID = A.SequenceID
GUID = A.GUID
RawGUID = A.randoms.ids.raw_guid.RawGUID
SIZES = [*range(1, 33), 48, 64, 128, 192, 256]
EDGES = (0, 1, 0x7F, 0x80, 0xFF)


class Bad(Exception):
    pass


def pattern_key(size, seed=1):
    return bytes((i * 37 + seed * 101 + (i * i) % 29) % 256 for i in range(size))


def whole(maps, domain, what):
    """
    `maps`: (forward, back) on a whole domain given as a range.
    """
    forward, back = maps
    image = [forward(v) for v in domain]
    top = len(domain)
    if len(set(image)) != top or min(image) < 0 or max(image) >= top:
        raise Bad(f"{what}: not one-to-one onto the domain")
    for v, w in enumerate(image):
        if back(w) != v:
            raise Bad(f"{what}: {v} -> {w} -> {back(w)}")
    return top


async def awhole(maps, domain, image, what):
    forward, back = maps
    for v in domain:
        w = await forward(v)
        if w != image[v] or await back(w) != v:
            raise Bad(f"{what}: asynchronous forms differ at {v}")


# ---- whole domains ----------------------------------------------------


async def one_byte(kind, keys):
    n = 0
    domain = range(256)
    for k, key in enumerate(keys):
        p = TYPES[kind](key=key, config_id=1)
        what = f"{kind} {key.hex()}"
        n += whole((p.permute, p.invert), domain, what)
        if kind != "affine" and k % 4 == 0:
            n += whole((p.uncapped_permute, p.uncapped_invert), domain, what)
        if k % 16 == 0:
            image = [p.permute(v) for v in domain]
            await awhole((p.apermute, p.ainvert), domain, image, what)
    return n, len(keys)


async def two_bytes(kind, key):
    p = TYPES[kind](key=key, config_id=2)
    domain = range(65536)
    what = f"{kind} {key.hex()}"
    n = whole((p.permute, p.invert), domain, what)
    if kind != "affine":
        n += whole((p.uncapped_permute, p.uncapped_invert), domain, what)
    return n, 1


# ---- all sizes --------------------------------------------------------


def values_of(size, every):
    top = 1 << 8 * size
    out = {0, 1, 2, 3, top - 1, top - 2, top // 2, top // 3, top // 255}
    for k in range(0, 8 * size, every):
        out |= {1 << k, (1 << k) - 1, top - (1 << k), top // 3 ^ (1 << k)}
    return sorted(v for v in out if 0 <= v < top)


def keys_of(cls, size):
    k = cls.key_size(size)
    yield bytes(k)
    yield b"\xff" * k
    yield pattern_key(k)
    yield b"\x01" + bytes(k - 1)
    if cls is Affine:
        # results just above the domain have to be walked back into it
        for off in (-1, 0, 1, 2, 7):
            yield ((1 << 8 * size) + off).to_bytes(k, "big")
    else:
        # the same for every part of the key which is added
        width = 2 * size
        gap = (1 << 8 * size).to_bytes(width, "big")
        for at in range(0, k - width + 1, size):
            yield bytes(at) + gap + bytes(k - at - width)


async def sizes(kind, size, every):
    cls = TYPES[kind]
    top = 1 << 8 * size
    n = objects = 0
    values = values_of(size, every)
    for key in keys_of(cls, size):
        objects += 1
        p = cls(key=key, config_id=size)
        what = f"{kind} size {size} key {key.hex()[:40]}"
        pairs = [(p.permute, p.invert, "")]
        if kind != "affine":
            pairs.append((p.uncapped_permute, p.uncapped_invert, " uncapped"))
        for forward, back, name in pairs:
            image = {}
            for v in values:
                n += 1
                w = forward(v)
                if not 0 <= w < top:
                    raise Bad(f"{what}{name}: {v} leaves the domain")
                if image.setdefault(w, v) != v:
                    raise Bad(f"{what}{name}: {v} & {image[w]} collide")
                if back(w) != v:
                    raise Bad(f"{what}{name}: {v} isn't restored")
                if forward(back(v)) != v:
                    raise Bad(f"{what}{name}: {v} isn't reached")
        for v in values[:: max(1, len(values) // 12)]:
            if await p.apermute(v) != p.permute(v) or await p.ainvert(v) != p.invert(v):
                raise Bad(f"{what}: asynchronous forms differ at {v}")
            if kind != "affine":
                a = await p.auncapped_permute(v)
                b = await p.auncapped_invert(v)
                if a != p.uncapped_permute(v) or b != p.uncapped_invert(v):
                    raise Bad(f"{what}: asynchronous uncapped forms differ at {v}")
    for wrong in (-1, 1):
        try:
            cls(key=bytes(cls.key_size(size) + wrong), config_id=size)
        except Exception:
            continue
        raise Bad(f"{kind} size {size}: key of a wrong size accepted")
    return n, objects


async def walks(size):
    """
    Values which leave the domain more than once before they're back.
    """
    n = objects = 0
    config = Affine(key=bytes(2 * size), config_id=size).config
    top, prime = 1 << 8 * size, getattr(config, "PRIME", None)
    m = getattr(config, "MULTIPLICATIVE_KEY", None)
    if not prime or not m:
        return 0, 0
    span = sorted({top, top + 1, (top + prime) // 2, prime - 2, prime - 1})
    for a, b in itertools.product([x for x in span if top <= x < prime], repeat=2):
        add = (b - m * a) % prime
        back = (a - add) * pow(m, -1, prime) % prime
        ahead = (m * b + add) % prime
        p = Affine(key=add.to_bytes(2 * size, "big"), config_id=size)
        objects += 1
        seen = {}
        for v in {back, ahead, (back + 1) % top, (back - 1) % top, (ahead + 1) % top}:
            if v >= top:
                continue
            n += 1
            w, x = p.permute(v), p.invert(v)
            if not (0 <= w < top and 0 <= x < top):
                raise Bad(f"size {size} key {add}: {v} leaves the domain")
            if p.invert(w) != v or p.permute(x) != v or seen.setdefault(w, v) != v:
                raise Bad(f"size {size} key {add}: {v} isn't restored")
            if (await p.apermute(v), await p.ainvert(v)) != (w, x):
                raise Bad(f"size {size} key {add}: asynchronous forms differ")
    return n, objects


# ---- states -----------------------------------------------------------


def steps_for(size):
    top = (1 << 8 * size) - 1
    return (
        ("step", None),
        ("astep", None),
        ("update", 1),
        ("update", 2),
        ("aupdate", top),
        ("update", top // 2 + 1),
        ("refused", 0),
        ("refused", top + 1),
        ("used", 5),
    )


async def advance(p, step, arg):
    if step == "step":
        p.step()
    elif step == "astep":
        await p.astep()
    elif step == "update":
        p.update_increment(arg)
    elif step == "aupdate":
        await p.aupdate_increment(arg)
    elif step == "used":
        p.invert(p.permute(arg))
        p.uncapped_invert(p.uncapped_permute(arg))
    else:
        before = [p.permute(v) for v in range(5)]
        for call in (p.update_increment, p.aupdate_increment):
            try:
                out = call(arg)
                if asyncio.iscoroutine(out):
                    await out
            except ValueError:
                continue
            raise Bad(f"an increment of {arg} was accepted")
        if before != [p.permute(v) for v in range(5)]:
            raise Bad("a refused increment had an effect")


async def states(kind, size, key, first, depth):
    """
    All sequences of state-advancing calls, made on two objects: what one
    permutes the other one inverts, at every stage, for the whole domain
    (one byte) or a spread of it.
    """
    cls = TYPES[kind]
    menu = steps_for(size)
    seen, n, traces = set(), 0, 0
    domain = range(256) if size == 1 else values_of(size, 8)
    every = range(0, 256, 1) if size == 1 else domain
    for tail in itertools.product(menu, repeat=depth - 1):
        path = (menu[first],) + tail
        one = cls(key=key, config_id=size)
        two = cls(key=key, config_id=size)
        for step in path:
            n += 1
            await advance(one, *step)
            if step[0] not in ("refused", "used"):
                await advance(two, *step)
        traces += 1
        image = tuple(one.permute(v) for v in domain)
        if len(set(image)) != len(domain) or max(image) >= 1 << 8 * size:
            raise Bad(f"{kind} after {path}: not one-to-one")
        if image in seen:
            continue
        seen.add(image)
        for v, w in zip(every, image):
            if two.invert(w) != v:
                raise Bad(f"{kind} after {path}: {v} -> {w} -> {two.invert(w)}")
            if await two.ainvert(await one.apermute(v)) != v:
                raise Bad(f"{kind} after {path}: {v} lost asynchronously")
            if two.uncapped_invert(one.uncapped_permute(v)) != v:
                raise Bad(f"{kind} after {path}: {v} lost uncapped")
    return n, len(seen), traces


async def periods(kind, size, key):
    """
    Steps go through the whole range before any state comes back.
    """
    n = 0
    cls = TYPES[kind]
    top = 1 << 8 * size
    for updates in itertools.product((None, 1, 2, 3, 128, 254, 255), repeat=2):
        if size > 1 and updates[0] is None:
            continue
        p = cls(key=key, config_id=size)
        for u in updates:
            if u is not None:
                p.update_increment(u)
        seen = set()
        for i in range(top):
            seen.add(p.permute(0))
            if i % 8 == 3:
                await p.astep()
            else:
                p.step()
        n += top
        if len(seen) != top:
            raise Bad(f"{kind} {key.hex()} {updates}: {len(seen)} states of {top}")
        if size > 1 and n > 4 * top:
            break
    return n, n


# ---- identifiers ------------------------------------------------------


async def sequences(size, keys):
    n = 0
    if size > 3 and len({SequenceID(key=k, config_id=size).new(1) for k in keys}) != len(keys):
        raise Bad(f"size {size}: the key has no effect")
    for key in keys:
        sid = SequenceID(key=key, config_id=size)
        counters = range(1 << 8 * size) if size < 3 else values_of(size, 1)
        seen = {}
        for c in counters:
            n += 1
            name = sid.new(c)
            if len(name) != size or type(name) is not bytes:
                raise Bad(f"size {size}: {name!r}")
            if seen.setdefault(name, c) != c:
                raise Bad(f"size {size}: {c} & {seen[name]} collide")
            if sid.read(name) != c:
                raise Bad(f"size {size}: {c} reads as {sid.read(name)}")
            if size != 2 or c % 61 == 0:
                if await sid.anew(c) != name or await sid.aread(name) != c:
                    raise Bad(f"size {size}: asynchronous forms differ at {c}")
    return n, len(keys)


async def fields(config_id, nodes, stamps):
    """
    Structured identifiers made with every node name, counter value, edge
    of the clock & some random parts read back to these.
    """
    n = 0
    prf = config_id - 10
    epoch = A.asynchs.Clock("nanoseconds")._epoch
    k = GUID.key_size(config_id)
    keys = [None, bytes(k), b"\xff" * k, pattern_key(k)]
    tokens = [bytes(prf), b"\xff" * prf, bytes(range(1, prf + 1))]
    for (node, stamp), token in itertools.product(
        [*((x, stamps[0]) for x in nodes), *((nodes[0], s) for s in stamps)], tokens
    ):
        CTL.time_ns = lambda: stamp + epoch
        CTL.urandom = lambda size: token if size == prf else b"\x01" * size
        raw = RawGUID(node_id=node, config_id=config_id)
        makers = [(raw, RawGUID(config_id=config_id))]
        for key in keys:
            g = GUID(key=key, node_id=node, config_id=config_id)
            # read by another object of the same key
            makers.append((g, GUID(key=key, config_id=config_id)))
        for maker, reader in makers:
            last = None
            for i in range(3):
                n += 1
                name = maker.new() if i != 1 else await maker.anew()
                if len(name) != config_id:
                    raise Bad(f"{config_id}: {len(name)} bytes")
                for got in (reader.read(name), await reader.aread(name)):
                    if (got.timestamp, got.token, got.node_id) != (
                        stamp.to_bytes(8, "big"),
                        token,
                        node,
                    ):
                        raise Bad(
                            f"{config_id} {node} {stamp} {token}: reads as "
                            f"{got.timestamp} {got.token} {got.node_id}"
                        )
                    if len(got.ticker) != 1 or got.ticker == last:
                        raise Bad(f"counter of {config_id}: {got.ticker}")
                last = got.ticker
        # at the same time, with the same random part & count
        names = [
            GUID(key=key, node_id=node, config_id=config_id).new() for key in keys
        ]
        names.append(RawGUID(node_id=node, config_id=config_id).new())
        if len(set(names)) != len(names):
            raise Bad(f"{config_id} {node} {stamp} {token}: the key has no effect")
        for size in (config_id - 1, config_id + 1):
            for reader in (makers[0][1], makers[1][1]):
                for call in (reader.read, reader.aread):
                    try:
                        out = call(bytes(size))
                        if asyncio.iscoroutine(out):
                            await out
                    except Exception:
                        continue
                    raise Bad(f"{size} bytes read as an identifier of {config_id}")
    CTL.time_ns = CTL.urandom = None
    return n, n


SECTIONS = dict(
    one_byte=one_byte,
    two_bytes=two_bytes,
    sizes=sizes,
    walks=walks,
    states=states,
    periods=periods,
    sequences=sequences,
    fields=fields,
)


def chunks(items, n):
    items = list(items)
    return [items[i::n] for i in range(n)]


def jobs_for(thorough):
    jobs = []
    # the added key counts modulo a prime below 512
    top = 65536 if thorough else 4200
    for keys in chunks([*range(top), *range(65536 - 1100, 65536)], 8):
        jobs.append(("one_byte", ("affine", [k.to_bytes(2, "big") for k in keys])))
    edges = EDGES if thorough else (0, 1, 0x80, 0xFF)
    fast = [bytes(x) for x in itertools.product(edges, repeat=5)]
    for keys in chunks(fast, 16):
        jobs.append(("one_byte", ("fast", keys)))
    slow = [bytes(x) for x in itertools.product((0, 255), repeat=9)]
    slow += [
        bytes(i) + bytes([v]) + bytes(8 - i) for i in range(9) for v in range(256)
    ] if thorough else []
    for keys in chunks(slow, 16):
        jobs.append(("one_byte", ("chain", keys)))
    for kind, cls in TYPES.items():
        k = cls.key_size(2)
        keys = [bytes(k), b"\xff" * k, pattern_key(k), bytes(k // 2) + b"\x01" + bytes(k - k // 2 - 1)]
        keys += [pattern_key(k, s) for s in range(2, 12 if thorough else 3)]
        jobs += [("two_bytes", (kind, key)) for key in keys]
        for size in SIZES:
            every = 1 if size < 33 else 8 if thorough else 64
            jobs.append(("sizes", (kind, size, every)))
    for size in SIZES:
        jobs.append(("walks", (size,)))
    for kind in ("chain", "fast"):
        for size, depth in ((1, 5), (2, 4), (16, 4)):
            k = TYPES[kind].key_size(size)
            for key in (bytes(k), b"\xff" * k, pattern_key(k)):
                for first in range(len(steps_for(size))):
                    jobs.append(
                        ("states", (kind, size, key, first, depth + bool(thorough)))
                    )
    for kind in ("chain", "fast"):
        for size in (1, 2):
            k = TYPES[kind].key_size(size)
            for key in (bytes(k), b"\xff" * k, pattern_key(k)):
                jobs.append(("periods", (kind, size, key)))
    for size in range(1, 33):
        k = SequenceID.key_size(size)
        keys = [bytes(k), b"\xff" * k, pattern_key(k)]
        if size == 1:
            keys += [bytes(i) + b"\x01" + bytes(k - i - 1) for i in range(k)]
        jobs.append(("sequences", (size, keys)))
    stamps = [0, 1, 255, 256, (1 << 63) + 1, (1 << 64) - 1, 0x0102030405060708]
    for config_id in range(12, 33):
        nodes = [bytes([b]) for b in (range(256) if thorough else (0, 1, 2, 127, 128, 254, 255))]
        jobs.append(("fields", (config_id, nodes, stamps)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0), str(e)[:1500]


def main():
    check = Check("C18", "model_checking")
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, (counts, problem) in pmap(work, jobs):
        name, args = jobs[i]
        steps, states_ = counts[:2]
        traces = counts[2] if len(counts) > 2 else steps
        check.count(states=states_, transitions=steps, traces=traces)
        check.part(name, jobs=1, calls=steps)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    for job in jobs[::40]:
        check.sample(repr(job)[:200])
    return check.finish()


def replay(data):
    out = work(jobs_for(data["tier"] == "thorough")[data["job"]])
    print(out)
    return 1 if out[1] else 0
