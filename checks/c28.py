"""
C28: processes which share salt files, or start, at the same time.

Real processes, which ask before each of their operations on the scratch
directory: exactly one of them runs at a time, in every order within the
bound, & one of them may be killed instead of being answered.
"""

import asyncio
import builtins
import io
import itertools
import json
import os
import shutil
import signal
import stat
import sys
import threading
from pathlib import Path

from mc import boot
from mc import threads as explorer
from mc.report import Check, pmap, WORKERS
from .c12 import scratch as scratch_directory
from .c04 import KEY, NOBODY, SALTS, World, drop_privileges, fresh_guards, show

A = boot.load()
from aiootp import _paths as P  # noqa: E402

EVENTS = {
    "open",
    "os.chmod",
    "os.remove",
    "os.rename",
    "os.link",
    "os.mkdir",
    "os.rmdir",
    "os.truncate",
}


# ---- inside of a process ----------------------------------------------


class Gates:
    """
    Asks for permission before each operation on a path in `root`.
    """

    def __init__(self, root, to, back):
        self.root, self.to, self.back = str(root), to, back
        self.lock = threading.Lock()
        self.inside = threading.local()
        self.open = io.open
        self.stat = os.stat

    def say(self, *what):
        os.write(self.to, json.dumps(what).encode() + b"\n")

    def gate(self, what):
        with self.lock:
            self.say("gate", what)
            if os.read(self.back, 1) != b"g":
                os._exit(9)

    def ours(self, path):
        try:
            return os.fspath(path).startswith(self.root)
        except TypeError:
            return False

    def hook(self, event, args):
        if event in EVENTS and args and self.ours(args[0]):
            self.gate(event)

    def install(self):
        def opened(path, *args, **kw):
            f = self.open(path, *args, **kw)
            if self.ours(path):
                self.gate("opened")
            return f

        def looked(path, *args, **kw):
            if self.ours(path):
                self.gate("stat")
            return self.stat(path, *args, **kw)

        builtins.open = io.open = opened
        os.stat = looked
        import aiofiles.threadpool

        aiofiles.threadpool.sync_open = opened
        sys.addaudithook(self.hook)


def plain(result):
    if isinstance(result, BaseException):
        return ["error", type(result).__name__, str(result)[-200:]]
    if isinstance(result, bytes):
        return ["bytes", result.hex()]
    if isinstance(result, tuple):
        return ["pair", str(result[0]), result[1].hex()]
    return ["nothing"]


def unplain(result):
    kind, *rest = result
    if kind == "error":
        return getattr(builtins, rest[0], RuntimeError)(rest[1])
    if kind == "bytes":
        return bytes.fromhex(rest[0])
    if kind == "pair":
        return Path(rest[0]), bytes.fromhex(rest[1])
    return None


def start_package(root):
    """
    Imports the package anew, from a copy.
    """
    for name in list(sys.modules):
        if name == "aiootp" or name.startswith("aiootp."):
            del sys.modules[name]
    sys.path.insert(0, str(root))
    real = threading.Thread.start

    def start(self):
        if not self.daemon:
            real(self)

    threading.Thread.start = start
    import aiootp

    if not aiootp.__file__.startswith(str(root)):
        raise RuntimeError("imported from elsewhere")
    # whether identifiers can be exchanged depends on a common salt
    known = repr(aiootp.GUID(config_id=16).read(bytes(16)).sort_key)
    return Path("."), aiootp.csprng(32) + known.encode()


def process(world, ops, gates):
    gates.install()
    for op in ops:
        gates.say("start", op)
        try:
            if op == "i":
                result = start_package(world.root)
            elif op.startswith("a"):
                result = asyncio.run(world.ado(op[1:]))
            else:
                result = world.do(op)
        except BaseException as e:
            result = e
        gates.say("end", op, plain(result))


# ---- outside ----------------------------------------------------------


class Processes:
    def __init__(self, world, rows, devs, kills):
        self.world = world
        self.devs = dict(devs)
        self.kills = kills
        self.trace = []
        self.log = []
        self.steps = 0
        self.diverged = 0
        self.killed = None
        self.open_ops = {}
        self.procs = {}
        for i, ops in enumerate(rows):
            out, to = os.pipe()
            back, into = os.pipe()
            pid = os.fork()
            if not pid:
                code = 3
                try:
                    os.close(out)
                    os.close(into)
                    for p in self.procs.values():
                        os.close(p[1])
                        os.close(p[2])
                    where = getattr(world, "db", world.root)
                    process(world, ops, Gates(where, to, back))
                    code = 0
                finally:
                    os._exit(code)
            os.close(to)
            os.close(back)
            self.procs[i] = [pid, out, into, b""]
        self.alive = []

    def listen(self, i):
        """
        Reads until the process asks, or ends.
        """
        p = self.procs[i]
        while True:
            while b"\n" in p[3]:
                line, p[3] = p[3].split(b"\n", 1)
                what, *rest = json.loads(line)
                if what == "gate":
                    return rest[0]
                if what == "start":
                    self.open_ops[i] = self.world.start(rest[0].lstrip("a"))
                else:
                    result = unplain(rest[1])
                    self.world.end(self.open_ops.pop(i), result)
                    if isinstance(result, tuple):  # is a random one
                        result = "a salt"
                    elif isinstance(result, BaseException):
                        result = type(result)
                    self.log.append((i, rest[0], show(result)))
            data = os.read(p[1], 65536)
            if not data:
                return None
            p[3] += data

    def reap(self, i):
        pid, out, into, _ = self.procs[i]
        os.close(out)
        os.close(into)
        os.waitpid(pid, 0)
        self.alive.remove(i)

    def run(self):
        waiting = {}
        for i in self.procs:
            self.alive.append(i)
            waiting[i] = "new"
            if self.listen(i) is None:
                self.reap(i)
        current = None
        while self.alive:
            if current not in self.alive:
                current = self.alive[0]
            enabled = tuple(self.alive)
            if self.kills and self.killed is None:
                enabled += tuple(("kill", i) for i in self.alive)
            n = len(self.trace)
            self.trace.append((current, enabled))
            pick = self.devs.get(n, current)
            if pick not in enabled:
                self.diverged = 1
                pick = current
            if isinstance(pick, tuple):
                self.killed = pick[1]
                self.log.append(pick)
                os.kill(self.procs[self.killed][0], signal.SIGKILL)
                entry = self.open_ops.pop(self.killed, None)
                if entry is not None:
                    self.world.history.remove(entry)
                self.reap(self.killed)
                continue
            current = pick
            self.steps += 1
            os.write(self.procs[current][2], b"g")
            if self.listen(current) is None:
                self.reap(current)


def judge_starts(world, killed):
    seen = []
    salts = set()
    for op, _, end, result in world.history:
        if end is None:
            return "a start never ended"
        if isinstance(result, BaseException):
            return f"a start failed: {result!r}"
        seen.append(result[1][:32])
        salts.add(result[1][32:])
    if len(set(seen)) != len(seen):
        return f"{len(seen)} starts drew {len(set(seen))} values"
    if len(salts) > 1:
        return "processes which started at once use different salts"
    if not killed:
        for path in world.db.rglob("_admin/*"):
            mode, data = world.content(path)
            if mode or len(data) < 32:
                return f"{path.name} left with mode {mode:o}, {len(data)} bytes"
    return None


def after_a_kill(world, op):
    """
    The next user gets a whole salt, the same as all the others.
    """
    got = set()
    creating = op if op.startswith("s") else None
    for op, _, end, result in world.history:
        if isinstance(result, BaseException):
            return f"{op} failed after another process was killed: {result!r}"
        if creating and end is not None:
            got.add(result[1])
        elif op == "r" and result not in SALTS.values():
            return f"a salt which nobody wrote was read: {show(result)}"
    fresh_guards()
    try:
        salt = world.do(creating)[1] if creating else world.do("r")
        world.do(creating or "u3")
    except Exception as e:
        return f"a killed process left an unusable salt: {e!r}"
    if creating:
        got.add(salt)
        if len(got) != 1 or len(salt) < 32:
            return f"{len(got)} salts were created"
    elif salt not in SALTS.values():
        return f"a salt which nobody wrote was left: {show(salt)}"
    return None


class Package(World):
    """
    A copy of the package, whose stored seeds are those of `initial`.
    """

    def __init__(self, scratch, initial):
        self.root = Path(scratch) / f"package-{os.getpid()}"
        self.initial, self.history, self.now = initial, [], 0
        if not self.root.exists():
            shutil.copytree(
                os.path.join(boot.REPO, "aiootp"),
                self.root / "aiootp",
                ignore=shutil.ignore_patterns("__pycache__", "db"),
            )
        self.db = self.root / "aiootp" / "db"
        shutil.rmtree(self.db, ignore_errors=True)
        self.db.mkdir()
        if initial is not None:
            kept = self.root / "kept"
            if not kept.exists():
                started = Processes(self, (("i",),), (), False)
                started.run()
                self.history.clear()
                self.unlock()
                shutil.copytree(self.db, kept)
                shutil.rmtree(self.db)
            shutil.copytree(kept, self.db, dirs_exist_ok=True)
            for path in self.db.rglob("_admin/*"):
                path.chmod(0)

    def unlock(self):
        for path in self.db.rglob("_admin/*"):
            path.chmod(0o600)

    def close(self):
        pass


def execute_for(spec):
    scratch, initial, rows, kills = spec
    starts = rows[0][0] == "i"

    def execute(devs):
        fresh_guards()
        world = (Package if starts else World)(scratch, initial)
        try:
            ps = Processes(world, rows, devs, kills)
            ps.run()
            if starts and ps.killed is not None:
                Processes(world, (("i",),), (), False).run()
            if starts:
                bad = judge_starts(world, ps.killed is not None)
            elif ps.killed is not None:
                bad = after_a_kill(world, rows[0][0].lstrip("a"))
            else:
                bad = world.judge()
            return (
                ps.trace,
                ps.steps,
                tuple(ps.log),
                f"{initial} {rows}: {bad} ({ps.log})" if bad else None,
                ps.diverged,
            )
        finally:
            world.close()

    return execute


def scenarios(thorough):
    out = []
    more = bool(thorough)

    def add(initial, rows, bound, kills=False):
        name = f"{initial}:{'|'.join(map(str, rows))}:{kills}"
        out.append((name, initial, rows, kills, bound))

    for forms in (("", ""), ("", "a"), ("a", "a")):
        x, y = forms
        deep = (2 if forms == ("", "") else 1) + more
        for a, b in (("r", "r"), ("r", "u1"), ("u1", "r"), ("u1", "u2")):
            add("0", ((x + a,), (y + b,)), deep + 1)
        add(None, ((x + "m1",), (y + "r",)), deep)
        add(None, ((x + "m1",), (y + "m2",)), deep + 1)
        add(None, ((x + "m1",), (y + "u2",)), deep)
        for a in ("s", "sa"):
            add(None, ((x + a,), (y + a,)), deep)
            add(None, ((x + a,), (y + a,)), deep, True)
        for a, b in (("r", "u1"), ("u1", "r"), ("u1", "u2")):
            add("0", ((x + a,), (y + b,)), deep, True)
    add("0", (("r", "u1"), ("r", "u2")), 2)
    add("0", (("u1", "r"), ("u2", "r")), 2)
    add("0", (("r",), ("r",), ("u1",)), 2)
    add("0", (("r",), ("u2",), ("u1",)), 2)
    add(None, (("s",), ("s",), ("s",)), 1 + more)
    for initial in (None, "0"):
        add(initial, (("i",), ("i",)), 1 + more)
        add(initial, (("i",), ("i",)), 1, True)
        if more:
            add(initial, (("i",), ("i",), ("i",)), 1)
    return out


def main():
    check = Check("C28")
    check.assumptions = [
        "processes are stopped before each operation on a path & after "
        "opening a file; what lies in between is atomic",
        "explored as an unprivileged user so that mode bits matter",
    ]
    scratch = scratch_directory()
    os.chown(scratch, NOBODY, NOBODY)
    jobs = []
    for name, initial, rows, kills, bound in scenarios(check.thorough):
        n = WORKERS if bound >= 2 or rows[0][0] == "i" else 1
        for i in range(n):
            spec = (scratch, initial, rows, kills)
            jobs.append((name, spec, bound, i, n))
    jobs.sort(key=lambda j: -(j[2] + 9 * (j[1][2][0][0] == "i")))

    def work(job):
        name, spec, bound, i, n = job
        return explorer.explore(execute_for(spec), bound, shard=(i, n))

    total = explorer.Result()
    failed = set()
    try:
        for k, res in pmap(work, jobs, setup=drop_privileges):
            name, spec, bound, i, n = jobs[k]
            total.merge(res)
            check.part(name, schedules=res.schedules)
            check.parts[name]["bound"] = bound
            if res.violation and name not in failed:
                failed.add(name)
                message, devs = res.violation
                check.violation(name, message, dict(name=name, devs=devs))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    check.count(
        states=total.states, transitions=total.steps, traces=total.schedules
    )
    check.part(
        "total",
        schedules=total.schedules,
        outcomes=len(total.outcomes),
        diverged=total.diverged,
        unstable_replays=total.unstable,
    )
    for job in jobs[::40]:
        check.sample(repr((job[0], job[2])))
    return check.finish()


def replay(data):
    scratch = scratch_directory()
    os.chown(scratch, NOBODY, NOBODY)
    drop_privileges()
    try:
        _, initial, rows, kills, _ = next(
            s for t in (0, 1) for s in scenarios(t) if s[0] == data["name"]
        )
        execute = execute_for((scratch, initial, rows, kills))
        devs = [
            (i, tuple(p) if isinstance(p, list) else p)
            for i, p in data["devs"]
        ]
        out = execute(devs)
        print(out[2], "\n", out[3])
        return 1 if out[3] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
