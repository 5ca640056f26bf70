"""
C14: database files reveal & accept nothing without the key.
"""

import asyncio
import base64
import hashlib
import itertools
import os
import shutil

from mc import boot
from mc.report import Check, pmap
from .c12 import scratch
from .cipherlib import Sized
from .dbmodel import KEY, Real

A = boot.load()
CTL = boot.CTL


class Bad(Exception):
    pass


VALUE = {
    ((), "first-tag-name"): b"first value in the clear",
    ((), "second-tag-name"): {"json-key-name": "json value in the clear"},
    ((), ""): b"",
    (("sub-database",), "first-tag-name"): b"inner value in the clear",
    (("sub-database", "deeper-one"), "first-tag-name"): ["deep value here"],
}
SUBS = [("sub-database",), ("sub-database", "deeper-one")]


async def build(form, root, key=KEY, mark=b""):
    cls = A.AsyncDatabase if form else A.Database
    db = cls(key, path=root)
    db = await db if form else db
    real = Real(form, root)
    for place in SUBS:
        parent = walk(db, place[:-1])
        await real.call(parent, "metatag", place[-1])
    for (place, tag), value in VALUE.items():
        if mark and isinstance(value, bytes):
            value = mark + value
        await real.call(walk(db, place), "set_tag", tag, value)
    await real.call(db, "save_database")
    return db


def walk(db, place):
    for name in place:
        db = getattr(db, name)
    return db


def owners(db):
    """
    file name -> ("root", place) or ("tag", place, tag)
    """
    out = {}
    for place in [(), *SUBS]:
        node = walk(db, place)
        out[node._root_filename] = ("root", place)
    for place, tag in VALUE:
        out[walk(db, place)._filename(tag)] = ("tag", place, tag)
    return out


async def read_all(form, root, key=KEY):
    """
    entry -> ("value", v) or ("error", name), from a fresh object.
    """
    cls = A.AsyncDatabase if form else A.Database
    real = Real(form, root)
    out = {}
    try:
        top = cls(key, path=root)
        top = await top if form else top
    except Exception as e:
        return dict.fromkeys(VALUE, ("error", type(e).__name__))
    for place, tag in VALUE:
        try:
            db = top
            for name in place:
                if name not in db.metatags:
                    raise LookupError(name)
                db = getattr(db, name)
            out[place, tag] = ("value", await real.call(db, "query_tag", tag))
        except Exception as e:
            out[place, tag] = ("error", type(e).__name__)
    return out


async def judge(form, root, owner, story, changed=()):
    """
    Whatever depends on the changed file fails; everything else reads as
    it was.
    """
    seen = await read_all(form, root)
    for (place, tag), value in VALUE.items():
        got = seen[place, tag]
        hit = owner == ("tag", place, tag) or owner[0] == "root"
        if hit:
            if got[0] != "error":
                raise Bad(f"{story}: {owner} accepted as {got}")
        elif got != ("value", value):
            raise Bad(f"{story}: {place} {tag} reads as {got}")


def alterations(data, every):
    """
    All single changes of a file's content.
    """
    yield "empty", b""
    for i in range(1, len(data)):
        if i % every == 0 or i < 60:
            yield f"cut to {i}", data[:i]
            yield f"cut from {i}", data[i:]
    for i in range(len(data)):
        bits = range(8) if every == 1 else (i % 8,)
        for bit in bits:
            yield (
                f"bit {bit} of byte {i}",
                data[:i] + bytes([data[i] ^ (1 << bit)]) + data[i + 1 :],
            )
    for more in (b"\x00", b"\xff", bytes(256), data[-256:], data):
        yield f"{len(more)} more", data + more
        yield f"{len(more)} ahead", more + data
    yield "zeros", bytes(len(data))
    yield "reversed", data[::-1]


async def alter(form, index, every):
    root = scratch()
    n = 0
    try:
        db = await build(form, root)
        files = sorted(owners(db).items(), key=lambda x: repr(x[1]))
        if sorted(os.listdir(root)) != sorted(f for f, _ in files):
            raise Bad("unexpected files")
        name, owner = files[index]
        path = os.path.join(root, name)
        with open(path, "rb") as f:
            data = f.read()
        for story, new in alterations(data, every):
            n += 1
            with open(path, "wb") as f:
                f.write(new)
            await judge(form, root, owner, story)
            if owner[0] == "tag" and n % 7 == 0:
                # a preloading reader & the other form notice as well
                try:
                    await Real(1 - form, root).open(preload=True)
                except Exception:
                    pass
                else:
                    raise Bad(f"{story}: {owner} preloaded")
                db2 = await Real(form, root).open()
                node = walk(db2, owner[1])
                for call in ("query_tag", "pop_tag"):
                    try:
                        v = await Real(form, root).call(
                            node, call, owner[2], silent=True
                        )
                    except Exception:
                        continue
                    raise Bad(f"{story}: {owner} {call} gave {v!r}")
        with open(path, "wb") as f:
            f.write(data)
        if any(v[0] == "error" for v in (await read_all(form, root)).values()):
            raise Bad("the original isn't accepted")
        os.unlink(path)
        n += 1
        seen = await read_all(form, root)
        if owner[0] == "tag" and seen[owner[1:]][0] != "error":
            raise Bad(f"removed {owner} reads as {seen[owner[1:]]}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n


async def replace(form):
    """
    Every file in the place of every other: of the same database, of one
    with another key, of another incarnation with the same key, & of a
    former incarnation of a sub-database.
    """
    n = 0
    roots = [scratch() for _ in range(4)]
    try:
        db = await build(form, roots[0])
        other = await build(form, roots[1], key=KEY[::-1], mark=b"x")
        again = await build(form, roots[2], mark=b"y")
        former = await build(form, roots[3], mark=b"z")
        # the same entries under the same key, sub-databases deleted &
        # made again: only their root salts differ
        real = Real(form, roots[0])
        await real.call(db, "delete_metatag", SUBS[0][0])
        old = {}
        await real.call(db, "metatag", SUBS[0][0])
        first = walk(db, SUBS[0])
        await real.call(first, "set_tag", "first-tag-name", b"old")
        await real.call(db, "save_database")
        name = first._filename("first-tag-name")
        with open(os.path.join(roots[0], name), "rb") as f:
            old["former", ("tag", SUBS[0], "first-tag-name")] = f.read()
        await real.call(db, "delete_metatag", SUBS[0][0])
        for place in SUBS:
            parent = walk(db, place[:-1])
            await real.call(parent, "metatag", place[-1])
        for (place, tag), value in VALUE.items():
            await real.call(walk(db, place), "set_tag", tag, value)
        await real.call(db, "save_database")
        sources = dict(old)
        for label, d, r in (
            ("own", db, roots[0]),
            ("other key", other, roots[1]),
            ("other salt", again, roots[2]),
            ("former database", former, roots[3]),
        ):
            for f, owner in owners(d).items():
                with open(os.path.join(r, f), "rb") as fd:
                    sources[label, owner] = fd.read()
        targets = owners(db)
        for (label, source), data in sources.items():
            for f, owner in targets.items():
                if label == "own" and source == owner:
                    continue
                if (
                    label in ("other salt", "former database")
                    and source == owner == ("root", ())
                ):
                    # a genuine index of the same key: replaying one's
                    # own older files isn't detectable
                    continue
                path = os.path.join(roots[0], f)
                with open(path, "rb") as fd:
                    keep = fd.read()
                with open(path, "wb") as fd:
                    fd.write(data)
                await judge(
                    form, roots[0], owner, f"{label} {source} as {owner}"
                )
                with open(path, "wb") as fd:
                    fd.write(keep)
                n += 1
        # exchanged names
        for a, b in itertools.combinations(targets, 2):
            pa, pb = (os.path.join(roots[0], x) for x in (a, b))
            os.rename(pa, pa + "~")
            os.rename(pb, pa)
            os.rename(pa + "~", pb)
            seen = await read_all(form, roots[0])
            for o in (targets[a], targets[b]):
                for entry, got in seen.items():
                    hit = o[0] == "root" or o[1:] == entry
                    if hit and got[0] != "error":
                        raise Bad(f"{targets[a]}/{targets[b]}: {entry} {got}")
            os.rename(pa, pa + "~")
            os.rename(pb, pa)
            os.rename(pa + "~", pb)
            n += 1
        if any(v[0] == "error" for v in (await read_all(form, roots[0])).values()):
            raise Bad("the originals aren't accepted")
    finally:
        for root in roots:
            shutil.rmtree(root, ignore_errors=True)
    return n


async def other_keys(form, part, parts):
    """
    Every single-bit neighbour of the key, & keys of other lengths, find
    nothing, even when the index is put where they look for it.
    """
    n = 0
    root = scratch()
    cls = A.AsyncDatabase if form else A.Database
    try:
        db = await build(form, root)
        names = set(os.listdir(root))
        with open(os.path.join(root, db._root_filename), "rb") as f:
            index = f.read()
        keys = [KEY[:i] for i in range(64, len(KEY))]
        keys += [KEY + b"\x00", KEY + KEY, b"\x00" + KEY, KEY[::-1]]
        for i in range(len(KEY) * 8):
            k = bytearray(KEY)
            k[i // 8] ^= 1 << (i % 8)
            keys.append(bytes(k))
        for key in keys[part::parts]:
            n += 1
            out = cls(key, path=root)
            out = await out if form else out
            if out or out.tags or out.metatags:
                raise Bad(f"key {key.hex()}: {out.tags}")
            if out._root_filename in names:
                raise Bad(f"key {key.hex()}: same index file")
            real = Real(form, root)
            for place, tag in VALUE:
                if await real.call(out, "query_tag", tag, silent=True) is not None:
                    raise Bad(f"key {key.hex()}: {tag}")
            path = os.path.join(root, out._root_filename)
            with open(path, "wb") as f:
                f.write(index)
            try:
                out = cls(key, path=root)
                out = await out if form else out
            except Exception:
                pass
            else:
                raise Bad(f"key {key.hex()}: index accepted: {out.tags}")
            finally:
                os.unlink(path)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n


def shapes(x):
    """
    Ways in which something could appear in the clear.
    """
    if isinstance(x, str):
        x = x.encode()
    yield x
    yield x[::-1]
    yield x.hex().encode()
    for shift in range(3):
        text = base64.b64encode(bytes(shift) + x)[4 if shift else 0 : -4]
        yield text
        yield text.replace(b"+", b"-").replace(b"/", b"_")
    yield bytes(b ^ 0xFF for b in x)


async def clear_text(form):
    """
    With working & with constant system randomness.
    """
    n = 0
    secrets = ["first-tag-name", "second-tag-name", "sub-database", "deeper-one",
               "json-key-name", "in the clear", "json value", "first value", KEY[:24], KEY[-24:]]
    for source in (None, Sized.const(0), Sized.const(0x5A)):
        CTL.urandom = source
        roots = [scratch(), scratch()]
        try:
            for root in roots:
                await build(form, root)
                blob = b"\n".join(
                    f.encode() + b"\n" + open(os.path.join(root, f), "rb").read()
                    for f in os.listdir(root)
                )
                for secret in secrets:
                    for shape in shapes(secret):
                        n += 1
                        if len(shape) > 7 and shape in blob:
                            raise Bad(f"{secret!r} found as {shape!r}")
        finally:
            CTL.urandom = None
            for root in roots:
                shutil.rmtree(root, ignore_errors=True)
    return n


def near(size):
    out = {0, 1, size // 2, size - 2, size - 1}
    for power in range(5, size.bit_length() + 1):
        out |= {2**power - 1, 2**power, 2**power + 1}
    return sorted(i for i in out if 0 <= i < size)


async def big_files(form, kind, size):
    """
    Long entries & the index of many entries, altered near round sizes;
    none of a long value can be read off its file.
    """
    n = 0
    root = scratch()
    cls = A.AsyncDatabase if form else A.Database
    real = Real(form, root)
    flow = hashlib.shake_256(b"long").digest(size)
    values = dict(
        bytes={"a": flow, "b": b"short"},
        text={"a": flow.hex()[:size], "b": "short"},
        many={f"t{i}": [i, "some text"] for i in range(size)},
    )[kind]

    async def fresh(preload=False):
        db = cls(KEY, path=root, preload=preload)
        return await db if form else db

    try:
        db = await fresh()
        for tag, value in values.items():
            await real.call(db, "set_tag", tag, value)
        await real.call(db, "save_database")
        tag = next(iter(values))
        name = db._root_filename if kind == "many" else db._filename(tag)
        path = os.path.join(root, name)
        with open(path, "rb") as f:
            data = f.read()
        if kind != "many":
            clear = values[tag] if kind == "bytes" else values[tag].encode()
            for i in near(len(clear) - 24):
                n += 1
                if clear[i : i + 24] in data:
                    raise Bad(f"{kind} of {size}: byte {i} is in the clear")
        stories = [(f"{len(data) + 1} bytes", data + b"\x00")]
        for i in near(len(data)):
            stories.append((f"byte {i}", data[:i] + bytes([data[i] ^ 1]) + data[i + 1 :]))
            stories.append((f"cut to {i}", data[:i]))
        for story, new in stories:
            with open(path, "wb") as f:
                f.write(new)
            n += 1
            for preload in (False, True):
                try:
                    db = await fresh(preload)
                    got = await real.call(db, "query_tag", tag)
                except Exception:
                    continue
                raise Bad(f"{kind} of {size}: {story} of {len(data)} read as {str(got)[:60]}")
            if kind != "many":
                got = await real.call(await fresh(), "query_tag", "b")
                if got != values["b"]:
                    raise Bad(f"{kind} of {size}: {story} changed the other entry")
        with open(path, "wb") as f:
            f.write(data)
        db = await fresh()
        for tag, value in values.items():
            n += 1
            if await real.call(db, "query_tag", tag) != value:
                raise Bad(f"{kind} of {size}: {tag} isn't what it was")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n


async def names(form):
    """
    File names of equal entries differ between keys, salts & places, &
    those of different entries in one place differ too; contents of
    equal values differ between writes.
    """
    n = 0
    cls = A.AsyncDatabase if form else A.Database
    tags = ["", "a", "b", "aa", "first-tag-name", "0", "1"]
    seen = {}
    roots = []
    try:
        # constant randomness: all root salts are equal, so that only the
        # keys & places tell the names apart
        for salt in (0x11, 0x22):
            for key in (KEY, KEY[::-1], KEY[:64], KEY + b"\x00"):
                CTL.urandom = Sized.const(salt)
                root = scratch()
                roots.append(root)
                db = cls(key, path=root)
                db = await db if form else db
                real = Real(form, root)
                s = await real.call(db, "metatag", "a")
                d = await real.call(s, "metatag", "a")
                e = await real.call(db, "metatag", "b")
                for place, node in (("", db), ("a", s), ("aa", d), ("b", e)):
                    for tag in tags:
                        f = await real.call(node, "filename", tag)
                        n += 1
                        if f in seen:
                            raise Bad(f"{f}: {seen[f]} & {salt, key[:4], place, tag}")
                        seen[f] = (salt, key[:4], place, tag)
                    f = node._root_filename
                    key_of = (key, place, salt if place else "")
                    if seen.setdefault(f, key_of) != key_of:
                        raise Bad(f"{f}: index of {seen[f]} & {key_of}")
        CTL.urandom = None
        root = scratch()
        roots.append(root)
        real = await Real(form, root).start()
        contents = set()
        for i in range(6):
            for tag in ("a", "b"):
                await real.call(real.db, "set_tag", tag, b"same", cache=False)
                f = await real.call(real.db, "filename", tag)
                with open(os.path.join(root, f), "rb") as fd:
                    data = fd.read()
                n += 1
                for j in range(0, len(data) - 16, 8):
                    piece = data[j : j + 16]
                    if piece in contents:
                        raise Bad("equal values share ciphertext")
                contents.update(
                    data[j : j + 16] for j in range(len(data) - 16)
                )
    finally:
        CTL.urandom = None
        for root in roots:
            shutil.rmtree(root, ignore_errors=True)
    return n


SECTIONS = dict(
    alter=alter,
    replace=replace,
    other_keys=other_keys,
    clear_text=clear_text,
    big_files=big_files,
    names=names,
)


def jobs_for(thorough):
    jobs = []
    for form in (0, 1):
        for index in range(len(VALUE) + 1 + len(SUBS)):
            jobs.append(("alter", (form, index, 1 if thorough else 2)))
        jobs.append(("replace", (form,)))
        jobs.append(("clear_text", (form,)))
        for kind, size in (
            ("bytes", 5000),
            ("bytes", 70_000),
            ("bytes", 300_000),
            ("text", 70_000),
            ("many", 40),
            ("many", 300),
        ):
            jobs.append(("big_files", (form, kind, size)))
        jobs.append(("names", (form,)))
        for part in range(4):
            jobs.append(("other_keys", (form, part, 4)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return 0, str(e)[:1500]


def main():
    check = Check("C14", "fault_enumeration")
    check.rule = (
        "one evaluation is one altered, replaced or exchanged file, one "
        "other key, or one shape of a secret searched on disk; all of "
        "them differ"
    )
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, (n, problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(evaluations=n)
        check.distinct_extra += n
        check.part(name, cases=n)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=[name, args]))
    for job in jobs[::5]:
        check.sample(repr(job))
    return check.finish()


def replay(data):
    out = work(data["job"])
    print(out)
    return 1 if out[1] else 0
