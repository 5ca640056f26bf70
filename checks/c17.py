"""
C17: key derivation is deterministic, fully separated & copy-safe.
"""

import asyncio
import itertools

from mc import boot
from mc.report import Check, pmap
from . import inline
from .spellings import spellings

A = boot.load()
CTL = boot.CTL
DomainKDF = A.DomainKDF
DBKDF = A.databases.dbkdf.DBKDF
M = A.keygens.mnemonics

LONG = bytes(range(168))
DOMAINS = (b"", b"d", b"dd", b"k", LONG)
KEYS = (b"k", b"kd", b"kk", LONG, LONG[1:] + b"\x00", LONG + b"\x00")
DATA = ((), (b"",), (b"a",), (b"ab",), (b"a", b"b"), (b"ab", b""), (b"", b"ab"))
UPDATES = ((b"",), (b"a",), (b"ab",), (b"a", b"b"), (b"b",), (LONG,))
SIZES = (8, 16, 31, 32, 33, 64, 168, 300)


class Bad(Exception):
    pass


class Distinct:
    def __init__(self):
        self.seen = {}

    def add(self, blob, what):
        old = self.seen.setdefault(blob, what)
        if old != what:
            raise Bad(f"{old} & {what} both give {blob.hex()}")


class OtherKDF(DomainKDF, salt_label=b"another_label"):
    __slots__ = ()


CLASSES = dict(DomainKDF=DomainKDF, DBKDF=DBKDF, OtherKDF=OtherKDF)


def derivations(full):
    """
    What can be asked of one object: algorithm, size, data & context.
    """
    datas = DATA if full else ((), (b"a",), (b"a", b"b"))
    aads = (b"", b"a", b"ab") if full else (b"", b"a")
    sizes = SIZES if full else (32, 64)
    for name in ("sha3_256", "sha3_512", "shake_128", "shake_256"):
        for data, aad in itertools.product(datas, aads):
            for size in sizes if "shake" in name else (None,):
                yield name, data, aad, size


def derive(kdf, what):
    name, data, aad, size = what
    kw = {} if size is None else dict(size=size)
    out = getattr(kdf, name)(*data, aad=aad, **kw)
    want = size or dict(sha3_256=32, sha3_512=64)[name]
    if len(out) != want:
        raise Bad(f"{what}: {len(out)} bytes")
    return out


async def aderive(kdf, what):
    name, data, aad, size = what
    kw = {} if size is None else dict(size=size)
    return await getattr(kdf, "a" + name)(*data, aad=aad, **kw)


def histories(depth):
    for n in range(depth + 1):
        yield from itertools.product(UPDATES, repeat=n)


def build(cls, domain, key, data, updates):
    kdf = cls(domain, *data, key=key)
    for update in updates:
        kdf.update(*update)
    return kdf


async def abuild(cls, domain, key, data, updates):
    kdf = cls(domain, *data, key=key)
    for update in updates:
        await kdf.aupdate(*update)
    return kdf


async def separation(names, domains, keys, datas, depth, full):
    """
    All objects of the given shapes & all questions to each: one table,
    no two entries alike; asked twice, in both forms & with other
    randomness & time in between, the answers don't change.
    """
    table = Distinct()
    questions = list(derivations(full))
    n = 0
    for name, domain, key, data in itertools.product(names, domains, keys, datas):
        if len(key) < 64 and name == "DBKDF":
            continue
        for updates in histories(depth):
            who = (name, domain, key, data, updates)
            CTL.urandom = lambda k: b"\x00" * k
            CTL.time_ns = lambda: 1
            kdf = build(CLASSES[name], domain, key, data, updates)
            first = [derive(kdf, q) for q in questions]
            CTL.urandom = CTL.time_ns = None
            again = await abuild(CLASSES[name], domain, key, data, updates)
            for q, out in zip(reversed(questions), reversed(first)):
                n += 1
                table.add(out[:8], (who, q))
                if await aderive(again, q) != out:
                    raise Bad(f"{who} {q}: not a function of its inputs")
    if len(table.seen) != n:
        raise Bad(f"{n} questions, {len(table.seen)} answers")
    return n, n


async def spelled(names):
    """
    Updates & questions in different spellings.
    """
    table = Distinct()
    n = 0
    for name, text in itertools.product(names, spellings()):
        one = CLASSES[name](b"domain", key=b"key" * 30)
        two = CLASSES[name](b"domain", key=b"key" * 30).update(text)
        for kdf, q in (
            (two, ("sha3_256", (), b"", None)),
            (one, ("sha3_256", (text,), b"", None)),
            (one, ("sha3_256", (), text, None)),
            (one, ("shake_128", (text,), b"", 40)),
            (one, ("shake_256", (), text, 40)),
        ):
            n += 1
            out = derive(kdf, q)
            table.add(out[:8], (name, text, kdf is two, q))
            if await aderive(kdf, q) != out:
                raise Bad(f"{name} {text} {q}: the forms differ")
        again = CLASSES[name](b"domain", key=b"key" * 30)
        await again.aupdate(text)
        if derive(again, ("sha3_512", (), b"", None)) != derive(two, ("sha3_512", (), b"", None)):
            raise Bad(f"{name} {text}: updates of the forms differ")
    return n, n


# ---- objects & their copies -------------------------------------------

STEPS = (
    ("update", (b"a",)),
    ("update", (b"a", b"b")),
    ("aupdate", (b"a",)),
    ("refused", ()),
    ("copy", None),
    ("ask", ("sha3_256", (), b"", None)),
    ("ask", ("shake_256", (b"a",), b"", 33)),
    ("aask", ("shake_128", (), b"a", 40)),
)


async def copies(name, domain, key, depth, first):
    """
    All sequences of calls on an object & its copies, each compared with
    an object built from the history alone.
    """
    cls = CLASSES[name]
    cache = {}

    def expected(history, question):
        if (history, question) not in cache:
            kdf = build(cls, domain, key, (b"x",), history)
            cache[history, question] = derive(kdf, question)
        return cache[history, question]

    probe = ("shake_256", (b"p",), b"p", 24)
    states, n, traces = set(), 0, 0
    menu = [(k, step) for k in range(3) for step in STEPS]
    for tail in itertools.product(menu, repeat=depth - 1):
        path = (first,) + tail
        objects = [cls(domain, b"x", key=key)]
        model = [()]
        for who, (step, arg) in path:
            if who >= len(objects):
                break
            n += 1
            kdf = objects[who]
            if step == "update":
                if kdf.update(*arg) is not kdf:
                    raise Bad("update doesn't return its object")
                model[who] += (arg,)
            elif step == "aupdate":
                if await kdf.aupdate(*arg) is not kdf:
                    raise Bad("aupdate doesn't return its object")
                model[who] += (arg,)
            elif step == "refused":
                for call in (kdf.update, kdf.aupdate):
                    try:
                        out = call()
                        if asyncio.iscoroutine(out):
                            await out
                    except ValueError:
                        continue
                    raise Bad("an empty update was accepted")
            elif step == "copy":
                if len(objects) == 3:
                    break
                objects.append(kdf.copy())
                model.append(model[who])
                if type(objects[-1]) is not cls:
                    raise Bad("a copy has another type")
            elif step == "ask":
                if derive(kdf, arg) != expected(model[who], arg):
                    raise Bad(f"{path}: {arg} of {who} differs")
            elif await aderive(kdf, arg) != expected(model[who], arg):
                raise Bad(f"{path}: {arg} of {who} differs")
        else:
            traces += 1
            for who, kdf in enumerate(objects):
                if derive(kdf, probe) != expected(model[who], probe):
                    raise Bad(f"{path}: object {who} isn't what it should be")
            states.add(tuple(model))
    return len(states), n, traces


async def magnitudes(name):
    """
    Large & many inputs in every place: the ends of each & their number
    matter.
    """
    cls = CLASSES[name]
    table = Distinct()
    n = 0
    big = []
    for size in (200, 256, 1000, 4096, 5000, 65_536, 70_001):
        x = bytes(i % 251 for i in range(size))
        big += [x, x[:-1] + b"\xff", b"\xff" + x[1:], x[:-1]]
        big.append(x[: size // 2] + b"\xff" + x[size // 2 + 1 :])
    big = list(dict.fromkeys(big))
    many = []
    for count in (10, 17, 64, 65, 66, 128, 256, 257, 300):
        items = tuple(b"%d" % (i % 9) for i in range(count))
        many += [items, items[:-1] + (b"z",), (b"z",) + items[1:]]
        many.append((*items[:-2], items[-2] + items[-1]))
    base = dict(domain=b"d", key=LONG, data=(), updates=(), ask=(), aad=b"a")
    cases = [dict(domain=x) for x in big]
    cases += [dict(key=x) for x in big if len(x) >= 200]
    cases += [dict(aad=x) for x in big]
    for place in ("data", "ask"):
        cases += [{place: (x,)} for x in big] + [{place: (b"", x)} for x in big]
        cases += [{place: x} for x in many]
    cases += [dict(updates=((x,),)) for x in big]
    cases += [dict(updates=(x,)) for x in many]
    cases += [dict(updates=tuple((y,) for y in x)) for x in many]
    for change in cases:
        at = {**base, **change}
        who = (at["domain"], at["key"], at["data"], at["updates"])
        kdf, other = build(cls, *who), await abuild(cls, *who)
        for kind, size in (("sha3_256", None), ("shake_128", 48)):
            n += 1
            question = (kind, at["ask"], at["aad"], size)
            out = derive(kdf, question)
            shown = {k: repr(v)[:40] for k, v in change.items()}
            if await aderive(other, question) != out:
                raise Bad(f"{shown}: the asynchronous form differs")
            table.add(out[:12], (repr(sorted(change.items())), kind))
    for size in (200, 1000, 5000, 70_001):
        n += 1
        kdf = build(cls, b"d", LONG, (), ())
        outs = {derive(kdf, ("shake_256", (), b"", size + i))[:16] for i in range(3)}
        if len(outs) != 3:
            raise Bad(f"keys of {size} bytes go together")
    return n, n


async def together():
    """
    Updates & questions of several tasks at once: updates take effect
    whole, in some order.
    """
    n = 0
    pieces = [(b"a",), (b"b", b"c"), (b"a", b"b", b"c")]
    question = ("sha3_512", (), b"", None)
    for chosen in itertools.permutations(pieces):
        for count in (2, 3):
            n += 1
            kdf = DomainKDF(b"d", key=b"k")
            await asyncio.gather(*(kdf.aupdate(*x) for x in chosen[:count]))
            fine = {
                derive(build(DomainKDF, b"d", b"k", (), order), question)
                for order in itertools.permutations(chosen[:count])
            }
            if derive(kdf, question) not in fine:
                raise Bad(f"{chosen[:count]} at once: mixed up")
    return n, n


# ---- choices & phrases ------------------------------------------------


async def choices():
    table = Distinct()
    n = 0
    words = list(range(65536))
    kinds = itertools.product(
        (b"", b"d", b"kd"), (b"k", b"kd", b"d", LONG), (8, 9, 16), (65535, 65536)
    )
    for domain, key, size, total in kinds:
        n += 1
        kw = dict(domain=domain, key=key)
        picked = list(M.keyed_choices(words[:total], size, **kw))
        other = [x async for x in M.akeyed_choices(words[:total], size, **kw)]
        if picked != other or picked != list(M.keyed_choices(words[:total], size, **kw)):
            raise Bad(f"{domain} {key} {size} {total}: not repeatable")
        if len(picked) != size or max(picked) >= total:
            raise Bad(f"{domain} {key} {size} {total}: {picked}")
        table.add(repr(picked[:8]).encode(), (domain, key, size, total))
    for key in (b"k", LONG):
        rows = {}
        for total in sorted({1 << i for i in range(6, 17)} | set(range(100, 2000, 100))):
            n += 1
            rows[total] = list(M.keyed_choices(words[:total], 24, key=key))
        for a, b in itertools.combinations(rows, 2):
            # the choices among fewer aren't those among more, reduced
            if b % a == 0 and [x % a for x in rows[b]] == rows[a]:
                raise Bad(f"choices among {a} & {b} go together")
    for total in range(1, 40):
        for size in (1, 2, 40 * total):
            n += 1
            # what's chosen are the items, by position & by identity
            things = [object() for _ in range(total)]
            picked = list(M.keyed_choices(things, size, key=LONG))
            if len(picked) != size or any(p not in things for p in picked):
                raise Bad(f"{size} of {total}: {len(picked)}")
            if size == 40 * total and len(set(map(id, picked))) != total:
                raise Bad(f"{size} of {total}: not all are ever chosen")
    return n, n


COSTS = dict(mb=1, cpu=1, cores=1)


async def phrases(part, parts):
    """
    Phrases made from a passphrase depend on every input; those made
    without one never repeat.
    """
    inline.use()
    words = [b"w%d" % i for i in range(4096)]
    base = dict(passphrase=b"a fine passphrase", size=8, salt=b"s" * 16, words=words)
    variants = [{}]
    variants += [dict(passphrase=p) for p in (b"a fine passphrasf", b"a fine passphrase\x00")]
    variants += [dict(size=s) for s in (9, 16)]
    variants += [dict(salt=s) for s in (None, b"s" * 15 + b"t", b"s" * 17, b"s")]
    variants += [dict(words=words[:-1])]
    variants += [dict(mb=2), dict(cpu=2), dict(cores=2)]
    table, n = {}, 0
    for i, change in enumerate(variants):
        kw = {**COSTS, **base, **change}
        phrase = kw.pop("passphrase")
        out = M.mnemonic(phrase, **kw)
        n += 1
        if len(out) != kw["size"] or any(w not in kw["words"] for w in out):
            raise Bad(f"{change}: {out}")
        if table.setdefault(tuple(out[:8]), i) != i:
            raise Bad(f"{change} gives the phrase of {variants[table[tuple(out[:8])]]}")
        if i % parts == part:
            if await M.amnemonic(phrase, **kw) != out or M.mnemonic(phrase, **kw) != out:
                raise Bad(f"{change}: not repeatable")
    if part == 0:
        default = dict(passphrase=b"a fine passphrase", **COSTS)
        one = M.mnemonic(**default)
        if len(one) != 8 or one == M.mnemonic(**dict(default, salt=b"x" * 8)):
            raise Bad(f"default words: {one}")
        seen = set()
        for size in (8, 8, 9, 12):
            seen.add(tuple(M.mnemonic(size=size)[:8]))
            seen.add(tuple((await M.amnemonic(size=size, salt=b"x"))[:8]))
        if len(seen) != 8:
            raise Bad("random phrases repeat")
        for call in (M.mnemonic, M.amnemonic):
            try:
                out = call(size=8, **COSTS)
                if asyncio.iscoroutine(out):
                    await out
            except Exception:
                n += 1
            else:
                raise Bad("cost settings without a passphrase were accepted")
    return n, n


SECTIONS = dict(
    magnitudes=magnitudes,
    separation=separation,
    copies=copies,
    together=together,
    choices=choices,
    phrases=phrases,
    spelled=spelled,
)


def jobs_for(thorough):
    jobs = []
    parts = 4
    jobs += [("phrases", (i, parts)) for i in range(parts)]
    everything = ("DomainKDF", "DBKDF", "OtherKDF")
    # every question to few objects
    jobs.append(("separation", (everything, DOMAINS[:3], KEYS[1:4], DATA[:4], 1, True)))
    # few questions to every object; tables are per job, so jobs overlap
    for key in KEYS:
        keys = (key, KEYS[0]) if key != KEYS[0] else KEYS[:2]
        jobs.append(
            ("separation", (("DomainKDF",), DOMAINS, keys, DATA[1:5], 2, False))
        )
    jobs.append(("separation", (everything, DOMAINS, KEYS, DATA, 1, False)))
    texts = spellings()
    two = ("DomainKDF", "OtherKDF")
    jobs.append(("separation", (two, texts, KEYS[:2], DATA[:1], 0, False)))
    jobs.append(("separation", (two, DOMAINS[:2], texts, DATA[:1], 0, False)))
    jobs.append(("separation", (two, DOMAINS[:2], KEYS[:2], [(x,) for x in texts], 0, False)))
    jobs.append(("spelled", (two,)))
    depth = 3 if not thorough else 4
    menu = [(0, step) for step in STEPS]
    for name, domain, key in (
        ("DomainKDF", b"", b"k"),
        ("DomainKDF", LONG, b"k"),
        ("DBKDF", b"d", LONG),
    ):
        for first in menu:
            jobs.append(("copies", (name, domain, key, depth + 1, first)))
    jobs += [("together", ()), ("choices", ())]
    jobs += [("magnitudes", (name,)) for name in everything]
    if thorough:
        jobs.append(("separation", (everything[:1], DOMAINS[:2], KEYS[:2], DATA[:3], 3, False)))
        jobs.append(("separation", (everything, DOMAINS, KEYS, DATA, 1, True)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0), str(e)[:1500]


def main():
    check = Check("C17", "model_checking")
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, (counts, problem) in pmap(work, jobs):
        name, args = jobs[i]
        states, steps = counts[:2]
        traces = counts[2] if len(counts) > 2 else steps
        check.count(states=states, transitions=steps, traces=traces)
        check.part(name, jobs=1, calls=steps)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    for job in jobs[::5]:
        check.sample(repr(job)[:300])
    return check.finish()


def replay(data):
    out = work(jobs_for(data["tier"] == "thorough")[data["job"]])
    print(out)
    return 1 if out[1] else 0
