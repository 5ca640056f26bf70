"""
Outcome & evidence of a check, and a fork based parallel map.
"""

import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
WORKERS = max(1, min(8, os.cpu_count() or 1))


class Check:
    """
    Collects what a check covered & what it found.
    """

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.distinct_extra = 0
        self.rule = ""
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.violations = []
        self.exhaustive = True

    @property
    def thorough(self):
        return self.tier == "thorough"

    def part(self, name, **numbers):
        d = self.parts.setdefault(name, {})
        for k, v in numbers.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                d[k] = d.get(k, 0) + v
            else:
                d[k] = v

    def sample(self, what, limit=12):
        if len(self.samples) < limit:
            self.samples.append(what)

    def violation(self, key, message, replay=None):
        """
        `key` identifies the finding (call site / input / history).
        """
        self.violations.append((key, message, replay))

    def count(self, states=0, transitions=0, traces=0, evaluations=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        self.evaluations += evaluations

    def seen(self, item):
        self.distinct.add(hash(item))

    def finish(self):
        known = load_known(self.pid)
        fresh, listed = [], []
        for v in self.violations:
            (listed if v[0] in known else fresh).append(v)
        coverage = dict(
            exhaustive=bool(self.exhaustive),
            samples=self.samples or ["none"],
            parts=self.parts,
        )
        if self.level == "model_checking":
            coverage.update(
                states=self.states,
                transitions=self.transitions,
                traces_validated_against_impl=self.traces,
            )
        elif self.level == "other":
            coverage.update(explanation="stopped by an exception")
        else:
            coverage.update(
                evaluations=self.evaluations,
                distinct_nontrivial=len(self.distinct) + self.distinct_extra,
                rule=self.rule,
            )
        evidence = dict(
            property=self.pid,
            tier=self.tier,
            seed=self.seed,
            level=self.level,
            coverage=coverage,
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 3),
            violations=len(fresh),
        )
        out = os.path.join(VERIF, "evidence")
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, f"{self.pid}.json")
        tmp = f"{path}.{os.getpid()}.tmp"
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, default=repr)
            f.write("\n")
        os.replace(tmp, path)
        for key, message, _ in listed:
            print(f"KNOWN-FINDING: property={self.pid} {key}: {message}")
        shown = set()
        for key, message, replay in fresh:
            if key in shown:
                continue
            shown.add(key)
            rdir = os.path.join(out, "replay")
            os.makedirs(rdir, exist_ok=True)
            rpath = os.path.join(rdir, f"{self.pid}-{len(shown)}.json")
            with open(rpath, "w") as f:
                json.dump(
                    dict(
                        property=self.pid,
                        key=key,
                        message=message,
                        replay=replay,
                    ),
                    f,
                    indent=1,
                    default=repr,
                )
            print(f"{self.pid}: {key}: {message}")
            print(f"VIOLATION property={self.pid} replay={rpath}")
        cov = {
            k: v
            for k, v in coverage.items()
            if isinstance(v, int) and not isinstance(v, bool)
        }
        print(
            f"{self.pid} {self.tier}: {cov} wall={evidence['wall_s']}s "
            f"violations={len(fresh)} known={len(listed)}"
        )
        sys.stdout.flush()
        return 1 if fresh else 0


def load_known(pid):
    keys = set()
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    body = line[len("known: ") :]
                    prop, _, rest = body.partition(" ")
                    if prop == f"property={pid}":
                        keys.add(rest.split(" ", 1)[0])
    except FileNotFoundError:
        pass
    return keys


class WorkerFailed(Exception):
    blame = None


def blame(error):
    """
    The place in the code under test where an unexpected exception came
    from, or `None` when it came from the harness itself.
    """
    from .boot import REPO

    if isinstance(error, WorkerFailed):
        return error.blame
    if isinstance(error, (KeyboardInterrupt, MemoryError)):
        return None
    root = os.path.realpath(REPO) + os.sep
    place = None
    tb = error.__traceback__
    while tb is not None:
        name = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if name.startswith(root):
            place = (
                f"{name[len(root):]}:{tb.tb_frame.f_code.co_name}: "
                f"{error!r}"
            )
        elif name.startswith(VERIF + os.sep):
            place = None
        tb = tb.tb_next
    return place


def crashed(pid, error):
    """
    An operation of the code under test which has to work failed: that's
    a violation. Failures of the harness are errors of the check.
    """
    traceback.print_exception(error)
    place = blame(error)
    check = Check(pid, "other")
    check.exhaustive = False
    if place is None:
        return 2
    check.violation("unexpected-exception", place, dict(crash=str(error)))
    return check.finish()


def pmap(func, jobs, *, workers=None, setup=None, timeout=800):
    """
    Runs `func(job)` for every job in forked processes; jobs are handed
    out dynamically. Yields (job index, result) in completion order. A
    job that raises stops everything with `WorkerFailed`.
    """
    jobs = list(jobs)
    workers = min(workers or WORKERS, len(jobs)) or 1
    sys.stdout.flush()
    procs = {}
    deadline = time.monotonic() + timeout
    todo = list(range(len(jobs)))[::-1]
    try:
        for _ in range(workers):
            p2c_r, p2c_w = os.pipe()
            c2p_r, c2p_w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(p2c_w)
                os.close(c2p_r)
                for other in procs.values():
                    os.close(other[1])
                    os.close(other[2])
                code = 0
                try:
                    if setup:
                        setup()
                    rf = os.fdopen(p2c_r, "rb")
                    wf = os.fdopen(c2p_w, "wb")
                    while True:
                        try:
                            i = pickle.load(rf)
                        except EOFError:
                            break
                        try:
                            res = (i, True, func(jobs[i]))
                            data = pickle.dumps(res)
                        except BaseException as e:
                            data = pickle.dumps(
                                (
                                    i,
                                    False,
                                    (traceback.format_exc(), blame(e)),
                                )
                            )
                        wf.write(len(data).to_bytes(8, "big") + data)
                        wf.flush()
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit(code)
            os.close(p2c_r)
            os.close(c2p_w)
            procs[c2p_r] = (pid, p2c_w, c2p_r)

        def give(fd):
            pid, w, r = procs[fd]
            if todo:
                os.write(w, pickle.dumps(todo.pop()))
                return True
            return False

        busy = set()
        for fd in list(procs):
            if give(fd):
                busy.add(fd)
        while busy:
            left = deadline - time.monotonic()
            if left <= 0:
                raise WorkerFailed("timeout")
            ready, _, _ = select.select(list(busy), [], [], left)
            for fd in ready:
                head = _read(fd, 8)
                if head is None:
                    raise WorkerFailed(f"worker {procs[fd][0]} died")
                body = _read(fd, int.from_bytes(head, "big"))
                if body is None:
                    raise WorkerFailed(f"worker {procs[fd][0]} died")
                i, ok, res = pickle.loads(body)
                if not ok:
                    text, where = res
                    error = WorkerFailed(f"job {i} {jobs[i]!r}:\n{text}")
                    error.blame = where
                    raise error
                if not give(fd):
                    busy.discard(fd)
                yield i, res
    finally:
        for pid, w, r in procs.values():
            for fd in (w, r):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid, _, _ in procs.values():
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass


def _read(fd, n):
    out = b""
    while len(out) < n:
        chunk = os.read(fd, n - len(out))
        if not chunk:
            return None
        out += chunk
    return out
