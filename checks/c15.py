"""
C15: a profile opens only with exactly its own credentials & is fully
deletable.
"""

import asyncio
import itertools
import os
import pathlib
import shutil

from mc import boot
from mc.report import Check, pmap
from . import inline
from .c12 import scratch
from .spellings import spellings

A = boot.load()
CTL = boot.CTL


class Bad(Exception):
    pass


BASE = dict(
    credentials=(),
    username=b"username",
    passphrase=b"a fine passphrase",
    salt=b"",
    aad=b"",
    mb=1,
    cpu=1,
    cores=1,
)


def vary(**kw):
    return {**BASE, **kw}


VARIATIONS = [
    BASE,
    vary(username=b"Username"),
    vary(username=b"username\x00"),
    vary(username=b"usernam"),
    vary(username=b""),
    vary(username=b"a fine passphrase", passphrase=b"username-username"),
    vary(passphrase=b"a fine passphrase "),
    vary(passphrase=b"A fine passphrase"),
    vary(passphrase=b"a fine passphrase\x00"),
    vary(passphrase=b"\x00a fine passphrase"),
    vary(passphrase=b"a fine passphras"),
    vary(salt=b"s"),
    vary(salt=b"\x00"),
    vary(salt=b"username"),
    vary(aad=b"s"),
    vary(aad=b"\x00"),
    vary(aad=b"username"),
    vary(salt=b"s", aad=b"s"),
    vary(salt=b"ss"),
    vary(username=b"", aad=b"username"),
    vary(username=b"", credentials=(b"username",)),
    vary(credentials=(b"",)),
    vary(credentials=(b"", b"")),
    vary(credentials=(b"\x00",)),
    vary(credentials=(b"a",)),
    vary(credentials=(b"a", b"b")),
    vary(credentials=(b"b", b"a")),
    vary(credentials=(b"ab",)),
    vary(credentials=(b"ab", b"")),
    vary(credentials=(b"", b"ab")),
    vary(credentials=(b"a", b"b", b"")),
    vary(credentials=(b"username",)),
    vary(credentials=(b"a fine passphrase",)),
    vary(mb=2),
    vary(cpu=2),
    vary(cores=2),
    vary(mb=2, cpu=2),
    vary(mb=2, cores=2),
]


def long_ones(name):
    """
    Long & many inputs in one place, which differ at their ends.
    """
    out = []
    for size in (64, 140, 257, 1025, 5000):
        x = bytes(i % 251 for i in range(size))
        for y in (x, x[:-1], x[:-1] + b"\xff", b"\xff" + x[1:]):
            out.append(vary(**{name: (y,) if name == "credentials" else y}))
    if name == "credentials":
        for size in (7, 8, 9, 16, 17, 40, 257):
            x = tuple(b"%d" % (i % 9) for i in range(size))
            for y in (x, x[:-1] + (b"z",), (b"z", *x[1:])):
                out.append(vary(credentials=y))
    return out


def spelled_ones(name):
    """
    Different spellings in one place.
    """
    return [vary(**{name: (x,) if name == "credentials" else x}) for x in spellings()]


async def profile(form, root, who, **kw):
    who = dict(who)
    credentials = who.pop("credentials")
    cls = A.AsyncDatabase if form else A.Database
    if form:
        return await cls.agenerate_profile(*credentials, path=root, **who, **kw)
    return cls.generate_profile(*credentials, path=root, **who, **kw)


async def call(form, db, name, *a, **kw):
    if form:
        return await getattr(db, "a" + name)(*a, **kw)
    return getattr(db, name)(*a, **kw)


def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            path = os.path.join(d, f)
            with open(path, "rb") as fd:
                out[os.path.relpath(path, root)] = fd.read()
    return out


async def isolation(form, order, part=None, others=None):
    """
    All variations side by side in one directory: each gets its own
    data back & nothing of the others, in any order of making them.
    """
    inline.use()
    n = 0
    root = scratch()
    who = ((others or long_ones)(part) if part else VARIATIONS)[::order]
    try:
        for i, v in enumerate(who):
            db = await profile(form, root, v)
            if db:
                raise Bad(f"{v} starts with {db.tags}")
            await call(form, db, "set_tag", "mark", ["profile", i])
            sub = await call(form, db, "metatag", "s")
            await call(form, sub, "set_tag", "mark", ["inner", i])
            await call(form, db, "save_database")
            n += 1
        for i, v in enumerate(who):
            for form2 in (0, 1):
                db = await profile(form2, root, v)
                if (
                    db.tags != {"mark"}
                    or await call(form2, db, "query_tag", "mark") != ["profile", i]
                    or await call(form2, db.s, "query_tag", "mark") != ["inner", i]
                ):
                    raise Bad(f"{v} doesn't open its own data")
                n += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, 2 * n, n


async def fresh_guess(form, index):
    """
    Each variation against a directory in which only the base profile
    exists: it finds an empty profile & leaves the base alone.
    """
    inline.use()
    n = 0
    root = scratch()
    try:
        v = VARIATIONS[index]
        db = await profile(form, root, BASE)
        await call(form, db, "set_tag", "mark", b"base")
        await call(form, db, "save_database")
        before = files(root)
        guess = await profile(form, root, v, preload=True)
        if index == 0:
            if await call(form, guess, "query_tag", "mark") != b"base":
                raise Bad("the same credentials don't open the profile")
            if files(root) != before:
                raise Bad("opening changed the files")
        else:
            if guess or await call(form, guess, "query_tag", "mark", silent=True):
                raise Bad(f"{v} opens the base profile")
        after = files(root)
        for f, data in before.items():
            if after.get(f) != data:
                raise Bad(f"{v} changed a file of the base profile")
        db = await profile(form, root, BASE)
        if await call(form, db, "query_tag", "mark") != b"base":
            raise Bad(f"{v} disturbed the base profile")
        n += 3
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n, n


PEOPLE = dict(a=BASE, b=vary(username=b"other name"), w=vary(passphrase=b"a wrong passphrase"))
OPS = ("open a", "save a", "set a", "delete a", "open b", "save b", "delete b", "open w")


async def lifecycles(form, first, depth):
    """
    All histories of opening, saving & deleting two profiles against a
    model; the files left are exactly those of existing profiles.
    """
    inline.use()
    n = 0
    for rest in itertools.product(OPS, repeat=depth - 1):
        history = (first, *rest)
        root = scratch()
        try:
            saved = {}
            for k, step in enumerate(history):
                what, who = step.split()
                db = await profile(form, root, PEOPLE[who])
                got = await call(form, db, "query_tag", "x", silent=True)
                want = saved.get(who)
                if got != want:
                    raise Bad(f"{history[: k + 1]}: {got!r} instead of {want!r}")
                saved.setdefault(who, None)
                if what == "save":
                    saved[who] = [k]
                    await call(form, db, "set_tag", "x", [k])
                    await call(form, db, "save_database")
                elif what == "set":
                    # never saved
                    await call(form, db, "set_tag", "x", ["unsaved"])
                elif what == "delete":
                    await call(form, db, "delete_database")
                    saved.pop(who)
                    if who == "a":
                        # the wrong passphrase's profile shares the salt
                        # of the username: it's gone as well
                        saved.pop("w", None)
                n += 1
            left = files(root)
            if not saved and len([d for d in left.values() if len(d) < 300]) != 1:
                raise Bad(f"{history}: salts left after deleting all profiles")
            for who in "ab":
                db = await profile(form, root, PEOPLE[who])
                got = await call(form, db, "query_tag", "x", silent=True)
                if got != saved.get(who):
                    raise Bad(f"{history}: at last {who} has {got!r}")
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return n // depth, n, n // depth


async def deletion(form):
    """
    Deleting leaves nothing but what was there before, for profiles with
    sub-databases, unsaved & saved entries, & several at once.
    """
    inline.use()
    n = 0
    for v, (subs, wide), (save, anew), other in itertools.product(
        (BASE, vary(credentials=(b"x",), salt=b"s", aad=b"t")),
        ((0, 0), (1, 0), (2, 0), (0, 2), (1, 2), (5, 30)),
        ((False, False), (True, False), (True, True)),
        (False, True),
    ):
        root = scratch()
        try:
            # the device salt is there to stay
            db = await profile(form, root, vary(username=b"another one"))
            await call(form, db, "delete_database")
            if other:
                db = await profile(form, root, vary(username=b"neighbour"))
                await call(form, db, "set_tag", "n", b"n")
                await call(form, db, "save_database")
            before = files(root)
            if not other and len(before) != 1:
                raise Bad(f"{len(before)} files left by a deleted profile")
            db = await profile(form, root, v)
            first = files(root)
            target = db
            for i in range(subs):
                target = await call(form, target, "metatag", f"s{i}")
                await call(form, target, "set_tag", "t", b"u")
            for i in range(wide):
                await call(form, db, "set_tag", f"t{i}", b"u")
                sub = await call(form, db, "metatag", f"w{i}")
                await call(form, sub, "set_tag", "t", b"u")
            await call(form, db, "set_tag", "t", b"u")
            await call(form, db, "set_tag", "now", b"u", cache=False)
            if save:
                await call(form, db, "save_database")
            if anew:
                db = await profile(form, root, v)
            await call(form, db, "delete_database")
            after = files(root)
            if after != before:
                raise Bad(
                    f"{subs, wide, save, anew, other}: left {set(after) - set(before)} "
                    f"lost {set(before) - set(after)}"
                )
            db = await profile(form, root, v)
            if db or db.tags or db.metatags:
                raise Bad("a deleted profile isn't empty when made again")
            again = files(root)
            for f in set(again) - set(before):
                if first.get(f) == again[f]:
                    raise Bad("a deleted profile's file came back")
            n += 3
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return n, n, n


async def salts(form):
    """
    Without the device's or the profile's salt, right credentials are of
    no use; with them restored they are again.
    """
    inline.use()
    n = 0
    root = scratch()
    try:
        db = await profile(form, root, BASE)
        await call(form, db, "set_tag", "x", b"y")
        await call(form, db, "save_database")
        index = db._root_filename
        tag = await call(form, db, "filename", "x")
        keep = files(root)
        found = [f for f in keep if os.path.basename(f) not in (index, tag)]
        if len(found) != 2:
            raise Bad(f"{len(found)} salt files")
        for f in found:
            path = os.path.join(root, f)
            mode = os.stat(path).st_mode & 0o777
            for i in range(0, len(keep[f]), 4):
                data = bytearray(keep[f])
                data[i] ^= 1 << (i % 8)
                with open(path, "wb") as fd:
                    fd.write(data)
                os.chmod(path, mode)
                db = await profile(form, root, BASE)
                if db or await call(form, db, "query_tag", "x", silent=True):
                    raise Bad(f"opened with another salt (byte {i} of {f})")
                n += 1
            with open(path, "wb") as fd:
                fd.write(keep[f])
            db = await profile(form, root, BASE)
            if await call(form, db, "query_tag", "x") != b"y":
                raise Bad("not opened with the right salts")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n, n


async def places(form, spelled):
    """
    A profile's directory is the one meant when it was given, wherever
    the process goes afterwards.
    """
    inline.use()
    n = 0
    home = os.getcwd()
    for leave, back in itertools.combinations(range(1, 6), 2):
        root = scratch()
        one, two = os.path.join(root, "one"), os.path.join(root, "two")
        try:
            for path in (one, two, os.path.join(two, "one")):
                os.mkdir(path)
            os.chdir(root)
            for i in range(4):
                if i == leave:
                    os.chdir(two)
                if i == back:
                    os.chdir(root)
                n += 1
                if i == 0:
                    db = await profile(form, spelled, BASE)
                    await call(form, db, "set_tag", "mark", b"x")
                elif i == 1:
                    await call(form, db, "save_database")
                elif i == 2:
                    other = await profile(1 - form, one, BASE)
                    if await call(1 - form, other, "query_tag", "mark") != b"x":
                        raise Bad(f"{spelled!r}: not found after {leave}-{back}")
                else:
                    await call(form, db, "delete_database")
                if os.listdir(two) != ["one"] or os.listdir(os.path.join(two, "one")):
                    raise Bad(f"{spelled!r}: files elsewhere after {leave}-{back}")
            if len(files(one)) != 1:
                raise Bad(f"{spelled!r}: {set(files(one))} are left after {leave}-{back}")
        finally:
            os.chdir(home)
            shutil.rmtree(root, ignore_errors=True)
    return n // 4, n, n // 4


SECTIONS = dict(
    places=places,
    isolation=isolation,
    fresh_guess=fresh_guess,
    lifecycles=lifecycles,
    deletion=deletion,
    salts=salts,
)


def jobs_for(thorough):
    jobs = []
    for form in (0, 1):
        for first in OPS:
            jobs.append(("lifecycles", (form, first, 4 if thorough else 3)))
        for order in (1, -1):
            jobs.append(("isolation", (form, order)))
        for part in ("username", "passphrase", "salt", "aad", "credentials"):
            jobs.append(("isolation", (form, 1, part)))
            jobs.append(("isolation", (form, 1, part, spelled_ones)))
        jobs.append(("deletion", (form,)))
        for spelled in ("one", "./one", "two/../one", pathlib.Path("one")):
            jobs.append(("places", (form, spelled)))
        jobs.append(("salts", (form,)))
        for index in range(len(VARIATIONS)):
            jobs.append(("fresh_guess", (form, index)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0, 0), str(e)[:1500]


def main():
    check = Check("C15")
    check.assumptions = [
        "jobs of the process pool run in the calling process",
        "profiles which differ only in passphrase or costs share the "
        "stored salt of their other credentials, so that deleting one "
        "of them makes the others unreachable",
    ]
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((states, moves, traces), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=states, transitions=moves, traces=traces)
        check.part(name, histories=traces, operations=moves)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=[name, args]))
    for job in jobs[::12]:
        check.sample(repr(job))
    return check.finish()


def replay(data):
    out = work(data["job"])
    print(out)
    return 1 if out[1] else 0
