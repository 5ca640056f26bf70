"""
C27: concurrent tasks on one asynchronous database don't interfere.

Tasks perform operations on a real database under every schedule with a
bounded number of deviations; file-system calls complete at chosen
moments. The recorded history must be explained by some order of the
operations, applied to the reference model, which respects what happened
before what.
"""

import asyncio
import copy
import hashlib
import itertools
import json
import os
import shutil

from mc import boot, tasks
from mc.report import Check
from .c12 import scratch
from .dbmodel import KEY, VALUES, Model, Node

A = boot.load()
TAGS = ("x", "y")


class Sealed:
    """
    A light stand-in for the cipher: sealed data is recognized, & damage
    to it too.
    """

    def __init__(self, key):
        self.key = key

    def _seal(self, data):
        return hashlib.sha256(self.key + data).digest() + data

    def _open(self, sealed):
        data = sealed[32:]
        if self._seal(data) != sealed:
            raise ValueError("damaged")
        return data

    async def abytes_encrypt(self, data):
        await asyncio.sleep(0)
        return self._seal(data)

    async def abytes_decrypt(self, sealed, ttl=None):
        await asyncio.sleep(0)
        return self._open(sealed)

    async def ajson_encrypt(self, data):
        await asyncio.sleep(0)
        return self._seal(json.dumps(data).encode())

    async def ajson_decrypt(self, sealed, ttl=None):
        await asyncio.sleep(0)
        return json.loads(self._open(sealed))


class Light(A.AsyncDatabase):
    _Cipher = Sealed


class Counter:
    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n


# ---- operations on the real database ----------------------------------


async def perform(cls, root, db, op, held):
    """
    The outcome of one operation.
    """
    name, *args = op
    where, _, name = name.rpartition(".")
    if where:
        db = held.get(where) or getattr(db, where)
    try:
        if name == "set":
            await db.aset_tag(args[0], VALUES[args[1]])
        elif name == "setd":
            await db.aset_tag(args[0], VALUES[args[1]], cache=False)
        elif name == "query":
            return ("value", await db.aquery_tag(args[0]))
        elif name == "load":
            return ("value", await db.aquery_tag(args[0], cache=True))
        elif name == "save_tag":
            await db.asave_tag(args[0])
        elif name == "drop":
            await db.asave_tag(args[0], drop_cache=True)
        elif name == "save":
            await db.asave_database()
        elif name == "with":
            async with db:
                pass
        elif name == "pop":
            return ("value", await db.apop_tag(args[0]))
        elif name == "rollback":
            await db.arollback_tag(args[0])
        elif name == "rollbackc":
            await db.arollback_tag(args[0], cache=True)
        elif name == "clear":
            await db.aclear_cache()
        elif name == "load_tags":
            await db.aload_tags(silent=True)
        elif name == "meta":
            held[args[0]] = await db.ametatag(args[0])
        elif name == "open":
            other = await cls(KEY, path=root)
            value = await other.aquery_tag(args[0], silent=True)
            return ("pair", tuple(sorted(other.tags)), value)
        else:
            raise AssertionError(op)
        return ("none",)
    except AssertionError:
        raise
    except LookupError:
        return ("error",)
    except Exception as error:
        return ("failure", repr(error)[:200])


# ---- operations on the model ------------------------------------------


def atoms_of(op):
    """
    The steps an operation consists of, each with the steps of the same
    operation it comes after.
    """
    name, *args = op
    where, _, name = name.rpartition(".")
    if name in ("save", "with"):
        out = [(("index", where), ())]
        out += [(("keep", where, t), (0,)) for t in TAGS]
        if not where:
            n = len(out)
            out.append((("index", "s"), (0,)))
            out += [(("keep", "s", t), (n,)) for t in TAGS]
        return out
    if name == "clear":
        out = [(("clear", where), ())]
        if not where:
            out.append((("clear", "s"), (0,)))
        return out
    if name == "load_tags":
        return [(("loaded", where, t), ()) for t in TAGS]
    if name == "open":
        return [(("opened", where), ()), (("read", where, args[0]), (0,))]
    if name == "rollbackc":
        return [
            (("rollback", where, args[0]), ()),
            (("loaded", where, args[0]), (0,)),
        ]
    return [((name, where, *args), ())]


def step(model, local, atom, result):
    """
    Applies a step to the model; whether that agrees with the operation's
    result.
    """
    name, where, *args = atom
    db = model.db
    if where:
        db = db.subs.get(where)
        if db is None:
            if name in ("index", "keep", "clear"):
                return True
            return False
    try:
        if name == "index":
            db.disk.files[db.root] = (
                db.salt,
                tuple(sorted(db.listed)),
                tuple(db.metas),
            )
        elif name == "keep":
            if args[0] in db.cache:
                db.save_tag(args[0])
        elif name == "clear":
            db.cache.clear()
        elif name == "loaded":
            if args[0] in db.listed or args[0] in db.cache:
                db.query(args[0], silent=True, cache=True) if (
                    args[0] in db.cache or db.file(args[0]) in db.disk.files
                ) else None
        elif name == "none":
            pass
        elif name == "opened":
            local["other"] = Node(model.disk, "K")
            return tuple(sorted(local["other"].listed)) == result[1]
        elif name == "read":
            value = local["other"].query(args[0], silent=True)
            return VALUES.get(value) == result[2]
        elif name == "set":
            db.set(*args)
            return result == ("none",)
        elif name == "setd":
            db.set(*args, cache=False)
            return result == ("none",)
        elif name == "query":
            return result == ("value", VALUES[db.query(*args)])
        elif name == "load":
            return result == ("value", VALUES[db.query(*args, cache=True)])
        elif name == "save_tag":
            db.save_tag(*args)
        elif name == "drop":
            db.save_tag(*args, drop=True)
        elif name == "pop":
            value = db.pop(*args)
            return result == ("value", VALUES.get(value))
        elif name == "rollback":
            db.rollback(*args)
        elif name == "meta":
            db.metatag(*args)
        else:
            raise AssertionError(atom)
        return result == ("none",)
    except LookupError:
        return result == ("error",)


async def seen(db):
    """
    What a database shows.
    """
    values = []
    for tag in TAGS:
        try:
            values.append(await db.aquery_tag(tag))
        except LookupError:
            values.append(None)
    metas = sorted(db.metatags)
    return dict(
        tags=sorted(db.tags),
        cached=[db[tag] for tag in TAGS],
        values=values,
        subs={name: await seen(getattr(db, name)) for name in metas},
    )


def expected(db):
    """
    What a model shows.
    """
    return dict(
        tags=sorted(db.listed),
        cached=[VALUES.get(db.cache.get(tag)) for tag in TAGS],
        values=[VALUES.get(db.query(tag, silent=True)) for tag in TAGS],
        subs={
            name: expected(db.subs[name]) for name in sorted(set(db.metas))
        },
    )


def variants(atom, own, ops):
    """
    A value which is just being stored without being kept in memory may
    be found there & still not be kept on behalf of a query.
    """
    yield atom
    name, where, *args = atom
    if name in ("load", "loaded"):
        storing = (where + "." if where else "") + "setd"
        for op in ops:
            if (
                op["op"][:2] == (storing, args[0])
                and op["end"] > own["start"]
                and op["start"] < own["end"]
            ):
                yield ("query" if name == "load" else "none", where, *args)
                return


def explained(start, ops, live, stored):
    """
    Whether some order of the operations' steps explains their results,
    what is in memory, & what is stored.
    """
    steps = [atoms_of(op["op"]) for op in ops]
    before = [
        [j for j, b in enumerate(ops) if b["end"] < a["start"]] for a in ops
    ]
    seen = set()

    def search(done, model, locals_):
        if all(len(d) == len(s) for d, s in zip(done, steps)):
            return (
                expected(model.db) == live
                and expected(Node(model.disk, "K")) == stored
            )
        key = (
            tuple(map(frozenset, done)),
            model.db.frozen(),
            tuple(sorted(model.disk.files.items(), key=repr)),
            tuple(sorted((k, v["other"].frozen()) for k, v in locals_.items() if v)),
        )
        if key in seen:
            return False
        seen.add(key)
        for i, own in enumerate(steps):
            if any(len(done[j]) < len(steps[j]) for j in before[i]):
                continue
            for k, (atom, after) in enumerate(own):
                if k in done[i] or any(a not in done[i] for a in after):
                    continue
                d = [set(s) for s in done]
                d[i].add(k)
                for variant in variants(atom, ops[i], ops):
                    m, l = copy.deepcopy((model, locals_))
                    if step(m, l[i], variant, ops[i]["result"]):
                        if search(d, m, l):
                            return True
        return False

    return search(
        [set() for _ in ops], start, {i: {} for i in range(len(ops))}
    )


# ---- schedules --------------------------------------------------------

STARTS = dict(
    empty=(),
    saved=(("set", "x", "v1"), ("save",), ("clear",)),
    cached=(("set", "x", "v1"), ("save",)),
    fresh=(("set", "x", "v2"),),
    newer=(("set", "x", "v2"), ("save",), ("set", "x", "v1")),
    known=(("set", "x", "v1"), ("set", "y", "v2"), ("save",)),
    both=(("set", "x", "v1"), ("set", "y", "v2"), ("save",), ("clear",)),
    sub=(("meta", "s"), ("s.set", "x", "v1"), ("save",), ("set", "x", "v2")),
)
_PREPARED = {}


def prepared(start, cls):
    """
    The files & the model of a start (in memory things are repeated).
    """
    key = (start, cls.__name__)
    if key not in _PREPARED:
        model = Model()
        model.disk.salts = Counter()
        model.db.salt = next(model.disk.salts)
        for op in STARTS[start]:
            for atom, _ in atoms_of(op):
                step(model, {}, atom, ("none",))
        _PREPARED[key] = model
    return copy.deepcopy(_PREPARED[key])


_JUDGED = {}
BASE = []  # the directory of all runs


def execute_crowd(spec):
    """
    Many tasks with an entry or a sub-database of their own each.
    """
    _, count, kind, sticky = spec
    fresh = Counter()

    async def user(cls, root, db, u, bad):
        tag = f"t{u}"
        value = [u] * (u % 5)
        if kind == "subs":
            db = await db.ametatag(f"s{u % 7}")
        await db.aset_tag(tag, "older")
        await db.asave_tag(tag)
        await db.aset_tag(tag, value, cache=bool(u % 3))
        if await db.aquery_tag(tag, cache=u % 4 != 0) != value:
            bad.append(f"{tag} isn't what was set")
        if kind == "whole" or u % 4 == 0:
            await db.asave_database()
            other = await cls(KEY, path=root)
            if kind != "subs" and await other.aquery_tag(tag, silent=True) != value:
                bad.append(f"{tag} isn't what was saved")
        else:
            await db.asave_tag(tag, drop_cache=u % 4 == 1)
        await db.aset_tag("own" + tag, u)
        if await db.apop_tag("own" + tag) != u:
            bad.append(f"own{tag} isn't what was set")
        if await db.aquery_tag(tag) != value:
            bad.append(f"{tag} isn't what was set before")

    def execute(devs):
        root = os.path.join(BASE[0], f"{os.getpid()}-{next(fresh)}")
        os.mkdir(root)
        bad = []
        try:

            async def main(loop):
                db = await Light(KEY, path=root)
                users = (user(Light, root, db, u, bad) for u in range(count))
                await asyncio.gather(*users)
                again = [db]
                await db.asave_database()
                again.append(await Light(KEY, path=root))
                for x in again:
                    size = 0
                    for u in range(count):
                        y = x
                        if kind == "subs":
                            y = getattr(x, f"s{u % 7}")
                        if await y.aquery_tag(f"t{u}") != [u] * (u % 5):
                            bad.append(f"t{u} was lost")
                    for y in [x, *(getattr(x, n) for n in x.metatags)]:
                        size += len(y.tags)
                    if size != count:
                        bad.append(f"{size} entries in place of {count}")

            loop, _, error = tasks.run(
                main, devs, slow=True, sticky=sticky, patience=60 + 20 * count * count
            )
        finally:
            shutil.rmtree(root, ignore_errors=True)
        if error is not None:
            bad.append(repr(error))
        problem = f"{spec}: {bad[0]}" if bad else None
        return loop.trace, loop.steps, tuple(loop.log), problem, loop.diverged

    return execute


def execute_for(spec):
    if spec[0] == "crowd":
        return execute_crowd(spec)
    start, programs, heavy, sticky = spec
    cls = A.AsyncDatabase if heavy else Light
    fresh = Counter()

    def execute(devs):
        root = os.path.join(BASE[0], f"{os.getpid()}-{next(fresh)}")
        os.mkdir(root)
        ops, names, clock = [], [], Counter()
        extra = {}
        try:

            async def main(loop):
                loop.quiet = True
                db = await cls(KEY, path=root)
                for op in STARTS[start]:
                    await perform(cls, root, db, op, {})
                subs = []

                async def task(u, program):
                    held = {}
                    for op in program:
                        entry = dict(op=op, start=next(clock), end=1 << 60)
                        ops.append(entry)
                        loop.event(u, op[0], "starts")
                        entry["result"] = await perform(
                            cls, root, db, op, held
                        )
                        entry["end"] = next(clock)
                        loop.event(u, op[0], repr(entry["result"]))
                    subs.extend(held.values())

                loop.quiet = False
                await asyncio.gather(
                    *(task(u, p) for u, p in enumerate(programs))
                )
                loop.quiet = True
                if any(s is not getattr(db, "s", None) for s in subs):
                    extra["bad"] = "tasks obtained different sub-databases"
                try:
                    extra["live"] = await seen(db)
                except Exception as error:
                    extra["bad"] = f"the database became unusable: {error!r}"
                    return
                try:
                    again = await cls(KEY, path=root)
                    extra["stored"] = await seen(again)
                except Exception as error:
                    extra["bad"] = f"what was stored is damaged: {error!r}"
                    return
                await db.asave_database()
                again = await cls(KEY, path=root)
                view = await seen(again)
                if forget(view) != forget(extra["live"]):
                    extra["bad"] = (
                        f"memory held {extra['live']}, but saving that "
                        f"stored {view}"
                    )

            loop, _, error = tasks.run(main, devs, slow=True, sticky=sticky)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        problem = repr(error) if error else extra.get("bad")
        if not problem:
            problem = next(
                (
                    f"{e['op']} failed: {e['result'][1]}"
                    for e in ops
                    if e["result"][0] == "failure"
                ),
                None,
            )
        if not problem:
            signature = repr((start, ops, extra["live"], extra["stored"]))
            if signature not in _JUDGED:
                _JUDGED[signature] = explained(
                    prepared(start, cls), ops, extra["live"], extra["stored"]
                )
            if not _JUDGED[signature]:
                problem = (
                    f"no order explains {[(e['op'], e['start'], e['end'], e['result']) for e in ops]} "
                    f"with {extra['live']} in memory & "
                    f"{extra['stored']} stored"
                )
        return (
            loop.trace,
            loop.steps,
            tuple(loop.log),
            f"{start} {programs}: {problem}" if problem else None,
            loop.diverged,
        )

    return execute


def forget(view):
    """
    A view without what's only about memory.
    """
    if view.__class__ is not dict:
        return view
    return {
        k: {n: forget(s) for n, s in v.items()} if k == "subs" else v
        for k, v in view.items()
        if k != "cached"
    }


SAME = (
    ("set", "x", "v3"),
    ("setd", "x", "v4"),
    ("query", "x"),
    ("load", "x"),
    ("save_tag", "x"),
    ("drop", "x"),
    ("save",),
    ("pop", "x"),
    ("rollback", "x"),
    ("rollbackc", "x"),
    ("clear",),
    ("load_tags",),
    ("open", "x"),
)
OTHER = (
    ("set", "y", "v3"),
    ("setd", "y", "v4"),
    ("query", "y"),
    ("load", "y"),
    ("save_tag", "y"),
    ("pop", "y"),
    ("rollback", "y"),
    ("meta", "s"),
)


WRITES = {"setd", "save_tag", "drop", "save", "pop"}
X3, X4, Y3 = ("set", "x", "v3"), ("set", "x", "v4"), ("set", "y", "v3")
D2, D4 = ("setd", "x", "v2"), ("setd", "x", "v4")
SAVE, SAVE_X, LOAD = ("save",), ("save_tag", "x"), ("load", "x")
DEEP = (
    ((D2,), (D4,)),
    ((SAVE,), (X3, SAVE)),
    ((LOAD,), (D4,)),
)
PAIRS = (
    ((X3, SAVE_X), (X4, SAVE_X)),
    ((X3, SAVE), (X4, SAVE)),
    ((X3, SAVE), (Y3, SAVE)),
    ((SAVE,), (Y3, SAVE)),
    ((SAVE_X,), (X3, SAVE_X)),
    ((("drop", "x"),), (X3, SAVE_X)),
    ((LOAD, SAVE_X), (D4, ("query", "x"))),
    ((("load_tags",), SAVE), (X3, ("query", "x"))),
    ((("pop", "x"), SAVE), (X3, SAVE)),
    ((("pop", "x"),), (X3, SAVE_X)),
    ((("rollback", "x"),), (X3, SAVE_X)),
    ((("clear",), ("query", "x")), (X3, SAVE_X)),
    ((("open", "x"),), (X3, SAVE)),
    ((("with",), ("open", "x")), (D4, ("with",))),
)
WIDE = (
    ((("clear",),), (X3, Y3)),
    ((("clear",),), (Y3, X3)),
    ((("clear",), SAVE), (X3, SAVE)),
    ((("clear",), ("load_tags",)), (Y3, X3)),
    ((("load_tags",),), (("clear",), X3)),
    ((SAVE, ("clear",)), (Y3, X3)),
)
META, SX3, SX4 = ("meta", "s"), ("s.set", "x", "v3"), ("s.set", "x", "v4")
SUBS = (
    ((META,), (META,)),
    ((META, SX3), (META, ("s.set", "y", "v4"))),
    ((META, SX3), (META, SAVE)),
    ((META, SX3, SAVE), (META, SX4, ("s.save",))),
    ((META, ("s.setd", "x", "v4")), (META, ("s.load", "x"))),
    ((META, SX3), (("clear",), SAVE)),
    ((META, SX3, SAVE), (X3, SAVE)),
)
THREE = (
    ((SAVE,), (SAVE,), (X3, SAVE)),
    ((D2,), (D4,), (("query", "x"),)),
    ((D2,), (("setd", "y", "v4"),), (SAVE,)),
    ((META, SX3), (META, SX4), (META, SAVE)),
    ((LOAD,), (("load_tags",),), (D4,)),
    ((SAVE_X,), (("pop", "x"),), (X4,)),
)


def scenarios(thorough):
    out = []
    more = bool(thorough)

    def add(start, *programs, bound, heavy=False):
        # users run on until they wait, or take turns
        both = bound == 1 and not heavy and (more or len(programs[0]) > 1)
        for sticky in (True, False)[: 1 + both]:
            spec = (start, programs, heavy, sticky)
            out.append((json.dumps(spec), spec, bound))

    # every two operations on one entry
    for start in ("empty", "saved", "newer", "cached")[: 3 + more]:
        for i, a in enumerate(SAME):
            for b in SAME[i:]:
                if a == b and a[0] in ("set", "setd"):
                    b = (*a[:2], "v2")
                deep = (
                    more
                    and start in ("saved", "newer")
                    and a[0] in WRITES
                    and b[0] in WRITES
                )
                add(start, (a,), (b,), bound=1 + deep)
    # & on different ones
    for start in ("both", "sub"):
        for a in SAME:
            for b in OTHER:
                if more or start == "both" or a[0] in WRITES:
                    add(start, (a,), (b,), bound=1)
    # changes which are then saved, by several tasks
    for a, b in DEEP:
        add("saved", a, b, bound=2)
    for start in ("saved", "newer", "fresh"):
        for a, b in PAIRS:
            add(start, a, b, bound=1 + (more and start == "saved"))
    for a, b in WIDE:
        add("known", a, b, bound=1 + more)
    for start in ("empty", "sub"):
        for a, b in SUBS:
            deep = more and start == "empty" and len(a) + len(b) < 5
            add(start, a, b, bound=1 + deep)
    for start in ("saved", "sub"):
        for programs in THREE:
            add(start, *programs, bound=1)
    # with the cipher in use
    for a, b in (DEEP if more else DEEP[:2]):
        add("saved", a, b, bound=1, heavy=True)
    for n in (3, 5, 9, 17, 33):
        for kind, sticky in itertools.product(("own", "whole", "subs"), (True, False)):
            spec = ("crowd", n, kind, sticky)
            out.append((f"crowd {n} {kind} {sticky}", spec, more and n < 9))
    return out


def main():
    from .guardlib import explore_all

    check = Check("C27")
    check.assumptions = [
        "file-system calls of one file handle are performed in order, & "
        "each is atomic",
        "most schedules use a light stand-in for the cipher, which detects "
        "any damage",
    ]
    BASE[:] = [scratch()]
    try:
        every = scenarios(check.thorough)
        explore_all(check, every, execute_for, None, part="tasks")
    finally:
        shutil.rmtree(BASE[0], ignore_errors=True)
    for name, _, bound in every[:: len(every) // 10]:
        check.sample(f"{name} with {bound} deviations")
    return check.finish()


def replay(data):
    if data["name"].startswith("crowd "):
        spec = next(s for n, s, _ in scenarios(0) if n == data["name"])
    else:
        start, programs, heavy, sticky = json.loads(data["name"])
        programs = tuple(tuple(tuple(op) for op in p) for p in programs)
        spec = (start, programs, heavy, sticky)
    devs = [
        (i, tuple(p) if isinstance(p, list) else p) for i, p in data["devs"]
    ]
    BASE[:] = [scratch()]
    try:
        ex = execute_for(spec)
        ex([])
        out = ex(devs)
    finally:
        shutil.rmtree(BASE[0], ignore_errors=True)
    print(out[2], "\n", out[3])
    return 1 if out[3] else 0
