"""
C12: a database behaves like a mapping with explicit save & rollback.
"""

import asyncio
import itertools
import json
import os
import pathlib
import shutil
import tempfile

from mc import boot
from mc.report import Check, pmap
from .dbmodel import KEY, VALUES, Model, Node, Real

A = boot.load()
CTL = boot.CTL
TAGS = ("a", "b")


class Bad(Exception):
    pass


def op(name, *args, at=(), **kw):
    return (tuple(at), name, args, kw)


OPS = (
    op("set", "a", "v1"),
    op("item", "a", "v2"),
    op("set", "a", "v4", cache=False),
    op("set", "b", "v3"),
    op("query", "a"),
    op("query", "a", cache=True),
    op("pop", "a"),
    op("pop", "a", silent=True),
    op("pop", "b"),
    op("del", "a"),
    op("rollback", "a"),
    op("rollback", "a", cache=True),
    op("clear"),
    op("clear", metatags=False),
    op("save_tag", "a"),
    op("save_tag", "a", True),
    op("save"),
    op("with"),
    op("load_tags"),
    op("load_tags", silent=True),
    op("reload"),
    op("reopen"),
    op("reopen", preload=True),
    op("reopen", preload=True, silent=False),
    op("metatag", "s"),
    op("metatag", "a"),
    op("metatag", "path"),
    op("delete_metatag", "s"),
    op("delete"),
    op("set", "a", "v2", at="s"),
    op("set", "b", "v1", at="s", cache=False),
    op("pop", "a", at="s"),
    op("rollback", "a", at="s"),
    op("clear", at="s"),
    op("save", at="s"),
    op("reload", at="s"),
    op("metatag", "d", at="s"),
    op("set", "a", "v3", at="sd"),
    op("delete_metatag", "d", at="s"),
)


def plain(view):
    """
    The model speaks of value names.
    """
    if view == "dead":
        return view
    return dict(
        view,
        cached=[VALUES.get(v) if v else v for v in view["cached"]],
        values=[VALUES.get(v) if v else v for v in view["values"]],
        subs={n: plain(s) for n, s in view["subs"].items()},
    )


def same(a, b):
    """
    Equality which tells types apart.
    """
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


async def observe(real, model, history, tags=TAGS):
    """
    Everything that can be seen of the live & of a reopened database,
    & the number & names of files.
    """
    try:
        got = await real.view(real.db, tags)
    except AttributeError:
        got = "dead"
    want = plain(model.db.view(tags))
    if not same(got, want):
        raise Bad(f"{history}: live {got} != {want}")
    fresh = Real(real.form, real.root)
    try:
        await fresh.start()
        got = await fresh.view(fresh.db, tags)
    except Exception as e:
        got = repr(e)
    want = plain(Node(model.disk, "K").view(tags))
    if not same(got, want):
        raise Bad(f"{history}: reopened {got} != {want}")
    files = os.listdir(real.root)
    if len(files) != len(model.disk.files):
        raise Bad(
            f"{history}: {len(files)} files on disk instead of "
            f"{sorted(model.disk.files, key=repr)}"
        )
    names = set(files)

    def walk(db, node):
        for tag in tags:
            path = db.filename(tag) if not real.form else db._filename(tag)
            if (path in names) != (node.file(tag) in model.disk.files):
                raise Bad(f"{history}: file of {node.key} {tag}")
        for n in set(node.metas):
            walk(getattr(db, n), node.subs[n])

    if not model.db.dead:
        walk(real.db, model.db)


async def apply(real, model, step, done):
    """
    One step on both, which must have the same outcome.
    """
    where, name, args, kw = step
    done.append((".".join((*where, name)), args, kw))
    want = model.apply(where, name, args, kw)
    got = await real.apply(where, name, args, kw)
    if want[0] == "value":
        want = ("value", VALUES[want[1]] if want[1] else want[1])
        fine = got[0] == "value" and same(got[1], want[1])
    else:
        fine = got[0] == want[0]
    if not fine:
        raise Bad(f"{done[-60:]}: {got} instead of {want}")


async def run(form, history, root):
    for f in os.listdir(root):
        os.unlink(os.path.join(root, f))
    model = Model()
    real = await Real(form, root).start()
    done = []
    for o in history:
        await apply(real, model, OPS[o], done)
    await observe(real, model, done)


def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="aiootp-db-", dir=base)


async def histories(form, prefix, depth):
    """
    All histories starting with `prefix`.
    """
    n = 0
    root = scratch()
    try:
        for rest in itertools.product(
            range(len(OPS)), repeat=depth - len(prefix)
        ):
            await run(form, (*prefix, *rest), root)
            n += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n * depth, n


async def merged(form, histories_):
    """
    One representative history per model state, extended by every
    operation.
    """
    n = 0
    root = scratch()
    try:
        for history in histories_:
            for o in range(len(OPS)):
                await run(form, (*history, o), root)
                n += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return len(histories_), n, n


def explore(depth, skip=()):
    """
    The reachable model states, each with a shortest history.
    """
    seen = {Model().key(): ()}
    frontier = [()]
    levels = [[()]]
    for _ in range(depth):
        new = []
        for history in frontier:
            for o in range(len(OPS)):
                if o in skip:
                    continue
                model = Model()
                for x in (*history, o):
                    model.apply(*OPS[x])
                key = model.key()
                if key not in seen:
                    seen[key] = (*history, o)
                    new.append((*history, o))
        frontier = new
        levels.append(new)
    return levels


# ---- values & names ---------------------------------------------------

KINDS = [
    b"", b"\x00", b"\x01", b"\x01\x02", b"\x01\x02\x01\x02", b"null",
    b'"text"', bytes(range(256)) * 3, "", "text", "\x01\x02", "null", "é 😀",
    "\ud800", 0, 1, -1, 2**70, 0.5, -0.0, 1e300, True, False, None, [], {},
    [[]], {"": None}, {"b": 1, "a": 2, "B": {"d": 0, "c": 0}}, {"a": {"b": [1, 2.0, "3", None, True]}}, ["\x00"],
    list(range(300)), "x" * 5000, bytes(70_000), "é" * 140_000,
]
NAMES = [
    "", "a", "b", "A", "a ", " a", "ab", "0", "1", "é", "é", "/", "..",
    "../a", "\x00", "a\x00", "x" * 3000, "sub", "path", "tags", "_cache",
    "a\n", "a\t", "a.", "ss", "ß", "SS", "fi", "\ufb01", "\uff21", "a\u200b", "i\u0307", "I",
]


async def values(form):
    """
    Every value survives every way of storing it, with its type.
    """
    n = 0
    for value in KINDS:
        for name in ("a", ""):
            for way in ("set", "item", "uncached", "save_tag", "sub"):
                n += 1
                root = scratch()
                try:
                    real = await Real(form, root).start()
                    db = real.db
                    target = db
                    if way == "sub":
                        target = await real.call(db, "metatag", "s")
                    if way == "item":
                        target[name] = value
                    elif way == "uncached":
                        await real.call(target, "set_tag", name, value, cache=False)
                    else:
                        await real.call(target, "set_tag", name, value)
                    if way == "save_tag":
                        await real.call(target, "save_tag", name, drop_cache=True)
                    got = await real.call(target, "query_tag", name)
                    if not same(got, value):
                        raise Bad(f"{way} {value!r}: live {got!r}")
                    await real.call(db, "save_database")
                    for form2 in (0, 1):
                        for preload in (False, True):
                            other = Real(form2, root)
                            odb = await other.open(preload=preload)
                            o = odb.s if way == "sub" else odb
                            got = await other.call(o, "query_tag", name)
                            if not same(got, value):
                                raise Bad(f"{way} {value!r}: reopened {got!r}")
                            if preload and not same(o[name], value):
                                raise Bad(f"{way} {value!r}: preloaded")
                    got = await real.call(target, "pop_tag", name)
                    if not same(got, value):
                        raise Bad(f"{way} {value!r}: popped {got!r}")
                finally:
                    shutil.rmtree(root, ignore_errors=True)
    return n, n, n


async def names(form):
    """
    Entries & sub-databases of all names live side by side; removing
    each of them leaves all the others.
    """
    n = 0
    root = scratch()
    try:
        real = await Real(form, root).start()
        usable = []
        for i, name in enumerate(NAMES):
            await real.call(real.db, "set_tag", name, ["entry", i])
        for i, name in enumerate(NAMES):
            try:
                sub = await real.call(real.db, "metatag", name)
            except Exception:
                if not hasattr(type(real.db), name):
                    raise
                continue
            usable.append(i)
            for j, tag in enumerate(NAMES):
                await real.call(sub, "set_tag", tag, ["inner", i, j])
        await real.call(real.db, "save_database")

        async def all_there(gone=(), gone_subs=()):
            nonlocal n
            db = await Real(form, root).open()
            for i, name in enumerate(NAMES):
                want = None if i in gone else ["entry", i]
                n += 1
                if await real.call(db, "query_tag", name, silent=True) != want:
                    raise Bad(f"{gone} {gone_subs}: entry {name!r}")
            if db.tags != {x for i, x in enumerate(NAMES) if i not in gone}:
                raise Bad(f"{gone}: {db.tags}")
            if db.metatags != {NAMES[i] for i in usable if i not in gone_subs}:
                raise Bad(f"{gone_subs}: {db.metatags}")
            for i in usable:
                if i in gone_subs:
                    continue
                sub = getattr(db, NAMES[i])
                step = len(gone) + len(gone_subs)
                for j, tag in enumerate(NAMES):
                    # those of the name removed last, & all now & then
                    if step % 11 and j not in (i, (step - 1) % len(NAMES)):
                        continue
                    n += 1
                    if await real.call(sub, "query_tag", tag) != ["inner", i, j]:
                        raise Bad(f"{gone} {gone_subs}: {NAMES[i]!r}.{tag!r}")
            return db

        await all_there()
        gone = set()
        for i in range(len(NAMES)):
            gone.add(i)
            await real.call(real.db, "pop_tag", NAMES[i])
            await real.call(real.db, "save_database")
            await all_there(gone)
        gone_subs = set()
        for i in usable:
            gone_subs.add(i)
            await real.call(real.db, "delete_metatag", NAMES[i])
            await real.call(real.db, "save_database")
            await all_there(gone, gone_subs)
        if len(os.listdir(root)) != 1:
            raise Bad(f"left on disk: {os.listdir(root)}")
        await real.call(real.db, "delete_database")
        if os.listdir(root):
            raise Bad(f"left on disk: {os.listdir(root)}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n, n


async def many(form, tags, subs, depth):
    """
    One story of many entries, sub-databases & levels.
    """
    names = [f"t{i}" for i in range(tags)]
    metas = [f"s{i}" for i in range(subs)]
    down = [tuple(f"d{i}" for i in range(k)) for k in range(depth + 1)]
    kinds = sorted(v for v in VALUES if v != "big")
    n = 0
    root = scratch()
    try:
        model = Model()
        real = await Real(form, root).start()
        done = []

        async def go(*steps):
            nonlocal n
            for step in steps:
                n += 1
                await apply(real, model, step, done)

        async def look(*more):
            await observe(real, model, (tags, subs, depth, n), names[:1] + list(more))

        await go(*(op("set", x, kinds[i % 4]) for i, x in enumerate(names)))
        await go(*(op("metatag", x) for x in metas))
        await go(*(op("set", "t0", kinds[i % 4], at=(x,)) for i, x in enumerate(metas)))
        for at in down[1:]:
            await go(op("metatag", at[-1], at=at[:-1]))
            await go(op("set", "t0", kinds[len(at) % 4], at=at))
        await go(op("save"))
        await look(*names[1:])
        await go(op("clear"), op("load_tags"))
        await go(*(op("query", x) for x in names))
        await go(op("reopen", preload=True))
        await look(*names[1:])
        await go(*(op("pop", x) for x in names[::3]))
        await go(*(op("set", x, "v4") for x in names[1::3]))
        await go(*(op("delete_metatag", x) for x in metas[::2]))
        await go(op("pop", "t0", at=down[-1]))
        await look(*names[-3:])
        await go(op("save"))
        await look(*names[1:])
        await go(*(op("set", x, "v1") for x in names))
        await go(*(op("rollback", x) for x in names))
        await go(op("reload"))
        await look(*names[1:])
        await go(op("delete"))
        await look(*names[1:])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n, 1


async def neighbours(form):
    """
    Databases with different keys share a directory: all histories of
    two operations on one leave the other alone.
    """
    n = 0
    other_key = bytes(reversed(KEY))
    cls = A.AsyncDatabase if form else A.Database

    async def make(key):
        out = cls(key, path=root)
        return await out if form else out

    for history in itertools.product(range(len(OPS)), repeat=2):
        root = scratch()
        try:
            db = await make(other_key)
            real = Real(form, root)
            await real.call(db, "set_tag", "a", b"mine")
            sub = await real.call(db, "metatag", "s")
            await real.call(sub, "set_tag", "a", b"my inner")
            await real.call(db, "save_database")
            await real.start()
            for o in (0, 24, 29, 16, *history):
                await real.apply(*OPS[o])
            for db in (db, await make(other_key)):
                await real.call(db, "clear_cache")
                if (
                    await real.call(db, "query_tag", "a") != b"mine"
                    or await real.call(db.s, "query_tag", "a") != b"my inner"
                    or db.tags != {"a"}
                    or db.metatags != {"s"}
                ):
                    raise Bad(f"{history}: the neighbour changed")
            n += 1
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return n, 2 * n, n


LOST_PREFIX = (
    op("set", "a", "v1"),
    op("set", "b", "v3"),
    op("metatag", "s"),
    op("set", "a", "v2", at="s"),
    op("metatag", "d", at="s"),
    op("set", "a", "v3", at="sd"),
    op("save"),
)
DIRTY = (
    op("set", "b", "v1"),
    op("pop", "a"),
    op("set", "a", "v4", at="s"),
    op("pop", "a", at="s"),
    op("metatag", "t"),
    op("delete_metatag", "d", at="s"),
)
LOADS = tuple(
    op(name, **dict(zip(("preload", "silent", "manifest"), flags)))
    for name, n in (("reopen", 2), ("load", 3))
    for flags in itertools.product((False, True), repeat=n)
)


async def lost(form, first, then):
    """
    Every set of lost entry files of nested databases, every way of
    loading what's left, & what's done with it afterwards.
    """
    n = moves = 0
    ops = (*LOADS, *DIRTY, *OPS)
    for mask in range(16):
        for o in then:
            root = scratch()
            try:
                model = Model()
                real = await Real(form, root).start()
                for step in LOST_PREFIX:
                    model.apply(*step)
                    await real.apply(*step)
                gone = []
                for bit, (at, tag) in enumerate((("", "a"), ("", "b"), ("s", "a"), ("sd", "a"))):
                    if mask >> bit & 1:
                        gone.append(at + tag)
                        db = real.target(at)
                        os.unlink(os.path.join(root, db._filename(tag)))
                        del model.disk.files[model.target(at).file(tag)]
                done = ["lost", gone]
                for x in (first, o):
                    where, name, args, kw = ops[x]
                    done.append((".".join((*where, name)), args, kw))
                    moves += 1
                    want = model.apply(*ops[x])
                    got = await real.apply(*ops[x])
                    if want[0] == "value":
                        want = ("value", VALUES[want[1]] if want[1] else want[1])
                    if got[0] != want[0] or (want[0] == "value" and not same(got[1], want[1])):
                        raise Bad(f"{done}: {got} instead of {want}")
                    if want[0] == "error" and name.startswith("load"):
                        break  # some of the rest was loaded
                else:
                    await observe(real, model, done)
                n += 1
            finally:
                shutil.rmtree(root, ignore_errors=True)
    return n, moves, n


async def ciphers_of(form):
    """
    A database's own encryption helpers round trip per file name & aad.
    """
    n = 0
    root = scratch()
    try:
        real = await Real(form, root).start()
        db = real.db
        cases = list(itertools.product(("", "f", "g"), (b"", b"x")))
        for data in (b"", b"abc", bytes(600)):
            for enc, dec, m in (
                ("bytes_encrypt", "bytes_decrypt", data),
                ("make_token", "read_token", data),
                ("json_encrypt", "json_decrypt", data.decode()),
            ):
                for filename, aad in cases:
                    ct = await real.call(db, enc, m, filename=filename, aad=aad)
                    for f2, a2 in cases:
                        n += 1
                        try:
                            got = await real.call(db, dec, ct, filename=f2, aad=a2)
                        except Exception:
                            got = None
                        want = m if (f2, a2) == (filename, aad) else None
                        if got != want:
                            raise Bad(f"{enc} {filename, aad} {f2, a2}: {got!r}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n, n


async def places(form, spelled):
    """
    A directory given in any spelling is the one meant when it was given,
    wherever the process goes afterwards.
    """
    n = traces = 0
    home = os.getcwd()
    steps = 9
    for leave, back in itertools.combinations(range(1, steps + 2), 2):
        root = scratch()
        one, two = os.path.join(root, "one"), os.path.join(root, "two")
        try:
            for path in (one, two, os.path.join(two, "one")):
                os.mkdir(path)
            os.symlink(one, os.path.join(root, "link"))
            os.chdir(root)
            real = Real(form, root)

            async def there(wanted):
                at = os.getcwd()
                os.chdir(home)
                db = await Real(form, one).open()
                got = {x: await real.call(db, "query_tag", x) for x in sorted(db.tags)}
                inner = None
                if db.metatags:
                    inner = await real.call(db.s, "query_tag", "b", silent=True)
                if (got, inner) != wanted:
                    raise Bad(f"{spelled!r} left at {leave}-{back}: {got} {inner}")
                os.chdir(at)

            db = None
            for i in range(steps):
                if i == leave:
                    os.chdir(two)
                if i == back:
                    os.chdir(root)
                n += 1
                if i == 0:
                    db = await Real(form, spelled).open()
                    await real.call(db, "set_tag", "a", [1])
                elif i == 1:
                    await real.call(db, "save_database")
                    await there(({"a": [1]}, None))
                elif i == 2:
                    sub = await real.call(db, "metatag", "s")
                    await real.call(sub, "set_tag", "b", b"2")
                elif i == 3:
                    await real.call(db, "save_database")
                    await there(({"a": [1]}, b"2"))
                elif i == 4:
                    await real.call(db, "clear_cache")
                    if (
                        await real.call(db, "query_tag", "a") != [1]
                        or await real.call(db.s, "query_tag", "b") != b"2"
                    ):
                        raise Bad(f"{spelled!r} left at {leave}-{back}: misread")
                elif i == 5:
                    await real.call(db, "set_tag", "c", 3, cache=False)
                    await real.call(db, "rollback_tag", "a")
                elif i == 6:
                    await real.call(db, "pop_tag", "a")
                    await real.call(db, "save_database")
                    await there(({"c": 3}, b"2"))
                elif i == 7:
                    await real.call(db, "load_database", manifest=True, preload=True)
                    if db.tags != {"c"} or await real.call(db, "query_tag", "c") != 3:
                        raise Bad(f"{spelled!r} left at {leave}-{back}: reloaded")
                else:
                    await real.call(db, "delete_database")
                if os.listdir(two) != ["one"] or os.listdir(os.path.join(two, "one")):
                    raise Bad(f"{spelled!r} left at {leave}-{back}: files elsewhere")
            if os.listdir(one):
                raise Bad(f"{spelled!r} left at {leave}-{back}: {os.listdir(one)} left")
            traces += 1
        finally:
            os.chdir(home)
            shutil.rmtree(root, ignore_errors=True)
    return n, n, traces


SECTIONS = dict(
    places=places,
    many=many,
    histories=histories,
    merged=merged,
    values=values,
    names=names,
    neighbours=neighbours,
    lost=lost,
    ciphers_of=ciphers_of,
)


def jobs_for(thorough):
    jobs = []
    for form in (0, 1):
        for name in ("values", "names", "neighbours", "ciphers_of"):
            jobs.append((name, (form,)))
    for form in (0, 1):
        every = range(len(LOADS) + len(DIRTY) + len(OPS))
        for i in range(len(LOADS) + len(DIRTY)):
            then = every if thorough else every[: len(LOADS)]
            jobs.append(("lost", (form, i, list(then))))
        for k in (3, 5, 9, 17, 33, 65, 130, 260)[: 8 if thorough or not form else 7]:
            jobs.append(("many", (form, k, 3, 3)))
            jobs.append(("many", (form, 4, k, 2)))
        for k in range(3, 9):
            jobs.append(("many", (form, 2, 2, k)))
        for spelled in ("one", "./one", "one/", "two/../one", "link", pathlib.Path("one")):
            jobs.append(("places", (form, spelled)))
    depth = 3 if not thorough else 4
    for o in range(len(OPS)):
        if thorough:
            for p in range(len(OPS)):
                jobs.append(("histories", (0, (o, p), 4)))
            jobs.append(("histories", (1, (o,), 3)))
        else:
            jobs.append(("histories", (0, (o,), 3)))
            jobs.append(("histories", (1, (o,), 2)))
    levels = explore(4 if thorough else 3)
    deep = [h for level in levels[3:] for h in level]
    for i in range(0, len(deep), 60):
        jobs.append(("merged", (0, deep[i : i + 60])))
    shallow = [h for level in levels[2:3] for h in level]
    for i in range(0, len(shallow), 60):
        jobs.append(("merged", (1, shallow[i : i + 60])))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0, 0), str(e)[:1500]


def main():
    check = Check("C12")
    jobs = jobs_for(check.thorough)
    check.assumptions = [
        "deeper histories are merged on states of the reference model",
        "one live object per database at a time",
    ]
    bad = 0
    for i, ((states, moves, traces), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=states, transitions=moves, traces=traces)
        check.part(name, histories=traces, operations=moves)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=[name, args]))
    for job in jobs[:: max(1, len(jobs) // 8)]:
        check.sample(repr(job)[:300])
    return check.finish()


def replay(data):
    out = work(data["job"])
    print(out)
    return 1 if out[1] else 0
