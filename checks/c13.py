"""
C13: failures during database writes never yield wrong data.

The failures are made by the operating system interface: opening or
removing a file raises at a chosen call, or the file size limit stops a
write after a chosen number of bytes.
"""

import asyncio
import copy
import errno
import itertools
import os
import resource
import shutil
import sys

from mc import boot, tasks, threads
from mc.report import Check, pmap
from .c12 import Bad, op, same, scratch
from .cipherlib import Sized
from .dbmodel import KEY, VALUES, Model, Node, Real

A = boot.load()
PLACES = ((), ("s",), ("s", "d"), ("t",))
TAGS = ("a", "b", "c")
BASE = (
    op("set", "a", "v1"),
    op("set", "b", "v3"),
    op("metatag", "s"),
    op("set", "a", "v2", at="s"),
    op("set", "b", "v4", at="s"),
    op("metatag", "d", at="s"),
    op("set", "a", "v3", at="sd"),
    op("save"),
    op("reopen"),
)
CHANGES = (
    op("set", "a", "v4"),
    op("set", "c", "v2"),
    op("pop", "b"),
    op("set", "a", "v1", at="s"),
    op("metatag", "t"),
    op("set", "b", "v1", at="t"),
)
SCENARIOS = {
    "first save": (
        (),
        (op("set", "a", "v1"), op("set", "b", "v2"), op("metatag", "s"),
         op("set", "a", "v3", at="s")),
        op("save"),
    ),
    "save": (BASE, CHANGES, op("save")),
    "with": (BASE, CHANGES, op("with")),
    "save unchanged": (BASE, (op("load_tags"),), op("save")),
    "save sub": (BASE, CHANGES, op("save", at="s")),
    "save_tag": (BASE, CHANGES, op("save_tag", "a")),
    "save_tag drop": (BASE, CHANGES, op("save_tag", "a", True)),
    "save_tag sub": (BASE, CHANGES, op("save_tag", "a", at="s")),
    "set uncached": (BASE, (), op("set", "a", "v2", cache=False)),
    "set uncached new": (BASE, (), op("set", "c", "v4", cache=False)),
    "set uncached sub": (BASE, (), op("set", "a", "v1", at="s", cache=False)),
    "pop": (BASE, (), op("pop", "a")),
    "pop changed": (BASE, CHANGES, op("pop", "a")),
    "pop sub": (BASE, (), op("pop", "a", at="s")),
    "del": (BASE, (op("load_tags"),), op("del", "a")),
    "delete sub": (BASE, (), op("delete_metatag", "s")),
    "delete sub changed": (BASE, CHANGES, op("delete_metatag", "s")),
    "delete": (BASE, (), op("delete")),
    "delete changed": (BASE, CHANGES, op("delete")),
    "save big": (
        (*BASE[:-2], op("set", "c", "big", at="s"), *BASE[-2:]),
        (op("set", "a", "big"), op("set", "c", "v2"), op("set", "c", "v1", at="s"),
         op("set", "b", "big", at="sd")),
        op("save"),
    ),
    "set uncached big": (BASE, (), op("set", "a", "big", cache=False)),
}


# ---- failing calls ----------------------------------------------------


class Crash(BaseException):
    pass


class Faults:
    """
    `plan` is None (only listen), or (what, n, how): the n-th opening for
    writing or removal fails; `how` is an exception name or a number of
    bytes after which nothing more can be written.
    """

    root = None
    plan = None
    calls = ()
    fired = False

    def arm(self, root, plan):
        self.calls = []
        self.fired = False
        self.plan = plan
        self.root = os.path.realpath(root) + os.sep

    def disarm(self):
        self.root = None
        limit(None)

    def event(self, what, path):
        if self.root is None or not isinstance(path, (str, bytes, os.PathLike)):
            return
        path = os.path.realpath(os.fsdecode(path))
        if not path.startswith(self.root):
            return
        i = len(self.calls)
        self.calls.append((what, os.path.basename(path)))
        if self.plan is None or self.plan[0] != i:
            return
        self.fired = True
        how = self.plan[1]
        if how == "crash":
            raise Crash()
        if how == "refuse":
            raise PermissionError(errno.EACCES, "refused", path)
        if how == "full":
            raise OSError(errno.ENOSPC, "no space", path)
        limit(how)


def limit(size):
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(
        resource.RLIMIT_FSIZE, (hard if size is None else size, hard)
    )


FAULTS = Faults()
WRITES = os.O_WRONLY | os.O_RDWR | os.O_TRUNC | os.O_APPEND | os.O_CREAT
_hooked = False


def hook(event, args):
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & WRITES:
            FAULTS.event("open", path)
    elif event == "os.remove":
        FAULTS.event("remove", args[0])
    elif event == "os.rename":
        FAULTS.event("rename", args[1])


def listen():
    global _hooked
    if not _hooked:
        _hooked = True
        sys.addaudithook(hook)


# ---- oracle -----------------------------------------------------------


def entry_of(node, place, tag):
    """
    The saved value of an entry in the model, & the files it depends on.
    """
    files = [node.root]
    for name in place:
        if name not in node.metas:
            return None, files
        node = node.subs[name]
        files.append(node.root)
    if tag not in node.listed and node.file(tag) not in node.disk.files:
        return None, files
    files.append(node.file(tag))
    return node.query(tag, silent=True), files


async def read_all(real, **kw):
    """
    (place, tag) -> ("value", v) / ("absent",) / ("error", name)
    """
    entries = list(itertools.product(PLACES, TAGS))
    try:
        top = await real.open(**kw)
    except Exception as e:
        return dict.fromkeys(entries, ("error", type(e).__name__)), None
    return {(p, t): await read(real, top, p, t) for p, t in entries}, top


def listing(node, place):
    """
    The names of the entries & sub-databases in an index.
    """
    for name in place:
        if name not in node.metas:
            return None
        node = node.subs[name]
    return frozenset(node.listed), frozenset(node.metas)


def listed(db, place):
    for name in place:
        if name not in db.metatags:
            return None
        db = getattr(db, name)
    return frozenset(db.tags), frozenset(db.metatags)


async def read(real, db, place, tag):
    try:
        for name in place:
            if name not in db.metatags:
                return ("absent",)
            db = getattr(db, name)
        if tag not in db:
            try:
                return ("value", await real.call(db, "query_tag", tag))
            except LookupError:
                return ("absent",)
        return ("value", await real.call(db, "query_tag", tag))
    except Exception as e:
        return ("error", type(e).__name__)


def files_of(root):
    out = {}
    for f in os.listdir(root):
        with open(os.path.join(root, f), "rb") as fd:
            out[f] = fd.read()
    return out


async def named(real, model):
    """
    Real file names of the model's files, from the live objects.
    """
    out = {}

    async def walk(db, node):
        out[node.root] = db._root_filename
        for tag in TAGS:
            out[node.file(tag)] = await real.call(db, "filename", tag)
        for name in node.metas:
            await walk(getattr(db, name), node.subs[name])

    await walk(real.db, model.db)
    return out


async def apply_all(real, model, ops):
    for o in ops:
        want = model.apply(*o)
        got = await real.apply(*o)
        if want[0] != got[0]:
            raise Bad(f"{o}: {got} instead of {want}")


async def once(form, scenario, plan, prepared, second=None):
    """
    Returns the calls made (with plan None) or judges the failure.
    """
    base, changes, final = SCENARIOS[scenario]
    root = scratch()
    try:
        model = copy.deepcopy(prepared[1])
        shutil.rmtree(root)
        shutil.copytree(prepared[0], root)
        real = await Real(form, root).start()
        await apply_all(real, model, changes)
        names = await named(real, model)
        before = copy.deepcopy(model)
        was = files_of(root)
        FAULTS.arm(root, plan)
        try:
            try:
                result = await real.apply(*final)
            except Crash:
                result = ("error", "Crash")
            calls, fired = list(FAULTS.calls), FAULTS.fired
        finally:
            FAULTS.disarm()
        want = model.apply(*final)
        if plan is None:
            if result[0] != want[0]:
                raise Bad(f"{scenario}: {result} instead of {want}")
            return calls, {f: len(d) for f, d in files_of(root).items()}
        if not fired:
            raise Bad(f"{scenario}: call {plan} was not repeated")
        if second is not None:
            # the attempt to save again fails as well
            FAULTS.arm(root, second)
            try:
                result = await real.apply((), "save", (), {})
            except Crash:
                result = ("error", "Crash")
            finally:
                FAULTS.disarm()
            if result[0] != "error":
                raise Bad(f"{scenario} {plan} {second}: not reported")
            model.apply((), "save", (), {})
        now = files_of(root)
        bytes_left = plan[1] if isinstance(plan[1], int) else 0
        # concurrent writers may have opened their files earlier
        touched = {f for _, f in (calls if form else calls[plan[0] :])}
        # opening a database reads the index of every sub-database
        indexes = [f for f in names if f[0] == "root"]
        damaged = set()
        for f in touched:
            if now.get(f) == was.get(f):
                continue
            if len(now.get(f, b"")) <= bytes_left:
                damaged.add(f)
        told = result[0] == "error"
        story = f"{scenario} {plan} {second} {calls[: plan[0] + 1]}"
        old = Node(before.disk, "K")
        new = Node(copy.deepcopy(model.disk), "K")
        for form2, kw in ((form, {}), (form, dict(preload=True)), (1 - form, {})):
            seen, top = await read_all(Real(form2, root), **kw)
            if top is not None and final[1] not in ("delete", "delete_metatag"):
                for place in PLACES:
                    got = listed(top, place)
                    ok = listing(old, place), listing(new, place)
                    if ok[0] is None:
                        # named by its parent, itself not saved yet
                        ok += ((frozenset(), frozenset()),)
                    if got is not None and got not in ok:
                        raise Bad(f"{story}: {place} lists {got} instead of {ok}")
            for place, tag in itertools.product(PLACES, TAGS):
                x, needs = entry_of(old, place, tag)
                y, needs2 = entry_of(new, place, tag)
                got = seen[place, tag]
                if not told and final[1] not in ("delete", "delete_metatag"):
                    allowed, failing = [y], y is None
                else:
                    allowed = [x, y]
                    failing = (
                        x is None
                        or y is None
                        or (kw and damaged)
                        or second is not None
                        or any(
                            names.get(n) in damaged
                            for n in (*needs, *needs2, *indexes)
                        )
                    )
                if got[0] == "value":
                    fine = any(
                        v is not None and same(got[1], VALUES[v])
                        for v in allowed
                    )
                else:
                    fine = failing
                if not fine:
                    raise Bad(
                        f"{story}: {'.'.join((*place, tag))} reads as {got}"
                        f" instead of {allowed}; damaged {len(damaged)}"
                    )
        if not told and final[1] in ("pop", "del", "delete", "delete_metatag"):
            if set(now) != {names[f] for f in model.disk.files}:
                raise Bad(f"{story}: reported success but left files")
        # repair
        if final[1] in ("delete", "delete_metatag"):
            again = await Real(form, root).start()
            await again.apply((), "delete", (), {})
            left = os.listdir(root)
            if left:
                raise Bad(f"{story}: deleting again leaves {len(left)} files")
            return None
        out = await real.apply((), "save", (), {})
        if out[0] == "error":
            raise Bad(f"{story}: saving again failed: {out}")
        model.apply((), "save", (), {})
        new = Node(model.disk, "K")
        seen, _ = await read_all(Real(form, root))
        for place, tag in itertools.product(PLACES, TAGS):
            y, _ = entry_of(new, place, tag)
            got = seen[place, tag]
            if final[1] in ("pop", "del") and y is None:
                # the file could not be removed, which was reported
                x, _ = entry_of(old, place, tag)
                if got[0] == "value" and same(got[1], VALUES[x]):
                    continue
            if (got[0] == "value") != (y is not None) or (
                y is not None and not same(got[1], VALUES[y])
            ):
                raise Bad(
                    f"{story}: after saving again "
                    f"{'.'.join((*place, tag))} reads as {got} not {y}"
                )
        return None
    finally:
        shutil.rmtree(root, ignore_errors=True)


def drive(form, coro):
    return tasks.run_plain(coro)


async def prepare(form, base):
    root = scratch()
    model = Model()
    real = await Real(form, root).start()
    await apply_all(real, model, base)
    return root, model


def cuts(size, step):
    out = {0, 1, size - 1, size // 2}
    if size > 4000:
        out.update(2**k for k in range(8, 18))
        step = size // 5
    out.update(range(0, size, step))
    return sorted(k for k in out if 0 <= k < size)


def scenario(form, name, step):
    """
    Every failing call & every cut of every written file.
    """
    listen()
    prepared = drive(form, prepare(form, SCENARIOS[name][0]))
    n = points = 0
    try:
        calls, sizes = drive(form, once(form, name, None, prepared))
        for i, (what, f) in enumerate(calls):
            hows = ["crash", "refuse", "full"]
            if what == "open":
                hows += cuts(sizes.get(f, 300), step)
            points += 1
            for how in hows:
                drive(form, once(form, name, (i, how), prepared))
                n += 1
    finally:
        shutil.rmtree(prepared[0], ignore_errors=True)
    return points, n


TWICE = ("first save", "save", "save_tag drop", "set uncached", "pop")


def twice(form, name, step):
    """
    Every pair of failures: of the operation & of the next save.
    """
    listen()
    prepared = drive(form, prepare(form, SCENARIOS[name][0]))
    n = points = 0
    try:
        calls, sizes = drive(form, once(form, name, None, prepared))
        for i, (what, _) in enumerate(calls):
            for how in ("full", 0, 100)[: 3 if what == "open" else 1]:
                for j in range(99):
                    points += 1
                    try:
                        for how2 in ("full", 0, *range(step, 300, step)):
                            plan, then = (i, how), (j, how2)
                            drive(form, once(form, name, plan, prepared, then))
                            n += 1
                    except Bad as e:
                        if "not reported" in str(e) and not FAULTS.fired:
                            break
                        raise
    finally:
        shutil.rmtree(prepared[0], ignore_errors=True)
    return points, n


def overlap(call, bound, shard):
    """
    All schedules of a failing asynchronous save, followed by changes &
    a save which succeeds: slow writers of the first must not undo it.
    """
    listen()
    tags = "ab"

    def execute(devs):
        root = scratch()

        async def main(loop):
            db = await A.AsyncDatabase(KEY, path=root)
            for tag in tags:
                db[tag] = tag.encode() * 900
            sub = await db.ametatag("s")
            sub["a"] = b"s" * 900
            FAULTS.arm(root, (call, "full"))
            try:
                await db.asave_database()
                loop.event("saved")
            except OSError:
                loop.event("failed")
            finally:
                FAULTS.disarm()
            for tag in tags:
                db[tag] = b"new " + tag.encode()
            sub["a"] = b"new a"
            await db.asave_database()
            me = asyncio.current_task()
            rest = [t for t in asyncio.all_tasks() if t is not me]
            if rest:
                await asyncio.wait(rest)
            found = A.Database(KEY, path=root)
            for db, tag in ((found, "a"), (found, "b"), (found.s, "a")):
                try:
                    value = db.query_tag(tag)
                except Exception as e:
                    value = repr(e)
                if value != b"new " + tag.encode():
                    return f"{tag} reads as {value[:20]!r} after a save"

        try:
            boot.CTL.urandom = Sized.const(0x33)
            loop, result, error = tasks.run(main, devs, slow=True)
        finally:
            boot.CTL.urandom = None
            FAULTS.disarm()
            shutil.rmtree(root, ignore_errors=True)
        bad = repr(error) if error else result
        return loop.trace, loop.steps, tuple(loop.log), bad, loop.diverged

    res = threads.explore(execute, bound, shard=tuple(shard))
    if res.violation:
        raise Bad(f"call {call} fails, {res.violation}")
    return res.schedules, res.schedules


SECTIONS = dict(scenario=scenario, twice=twice, overlap=overlap)


def jobs_for(thorough):
    return [
        ("overlap", (call, 1, (i, 4)))
        for call in range(5)
        for i in range(4)
    ] + [
        ("twice", (form, name, 10 if thorough else 150))
        for form in (0, 1)
        for name in TWICE
    ] + [
        ("scenario", (form, name, 1 if thorough else 12))
        for form in (0, 1)
        for name in sorted(SCENARIOS, key=lambda s: "save" not in s)
    ]


def work(job):
    name, args = job
    try:
        return SECTIONS[name](*args), None
    except Bad as e:
        return (0, 0), str(e)[:1500]


def main():
    check = Check("C13", "fault_enumeration")
    check.rule = (
        "one evaluation is one failing call or one cut position of one "
        "write of one scenario, judged after reopening & after repair; "
        "every one of them is a different state of the disk or memory"
    )
    check.assumptions = [
        "a write stops after any prefix of its data; file names change "
        "atomically; nothing is reordered across calls",
    ]
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((points, n), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(evaluations=n)
        check.distinct_extra += n
        part = args[1] if name == "scenario" else name
        check.part(part, calls=points, failures=n)
        if problem and bad < 5:
            bad += 1
            check.violation(
                f"{name}:{args[0]}:{args[1]}".replace(" ", "-"),
                problem,
                dict(job=[name, args]),
            )
    for name, what in list(SCENARIOS.items())[:8]:
        check.sample(f"{name}: {what[2]}")
    return check.finish()


def replay(data):
    out = work(data["job"])
    print(out)
    return 1 if out[1] else 0
