"""
Shared harness for the guard checks (C01, C02, C03).

A scenario is a list of users; each user is a thread program or an
asyncio task which uses one or more guards & reports to a monitor.
"""

import asyncio
import time

from mc import boot, tasks, threads
from mc.report import pmap, WORKERS

FILES = ("/aiootp/asynchs/",)


class Boom(Exception):
    pass


class Monitor:
    """
    The oracle: who is inside, who was ahead in the queue on arrival.
    """

    def __init__(self):
        self.inside = {}
        self.entered = []
        self.ahead = {}
        self.bad = None

    def fail(self, message):
        if self.bad is None:
            self.bad = message

    def arrive(self, user, ahead):
        self.ahead[user] = ahead

    def enter(self, user, exclusive, target=None):
        for other, (excl, tgt) in self.inside.items():
            if tgt == target and (excl or exclusive):
                self.fail(f"{user} runs while {other} runs on {tgt!r}")
        for other, excl in self.ahead.get(user, ()):
            # non-exclusive users aren't ordered among themselves
            if (excl or exclusive) and other not in self.entered:
                self.fail(f"{user} ran before {other} which queued earlier")
        self.inside[user] = (exclusive, target)
        self.entered.append(user)

    def leave(self, user):
        self.inside.pop(user)


def explore_all(
    check, scenarios, execute_for, bounds, *, part, cap_s=None, sticky=()
):
    """
    Explores every scenario with its bound in forked workers.

    `scenarios`: list of (name, spec, bound). With `sticky` the scenarios
    are also explored with tasks which run on until they wait; it tells
    how many deviations less are to be used.
    """
    jobs = []
    for less in (None, *sticky):
        for name, spec, bound in scenarios:
            bound -= less or 0
            n = WORKERS if bound >= 2 else 1
            for i in range(n):
                jobs.append((name, spec, bound, i, n, less is not None))

    def work(job):
        name, spec, bound, i, n, tasks.STICKY[0] = job
        deadline = time.monotonic() + cap_s if cap_s else None
        return threads.explore(
            execute_for(spec), bound, shard=(i, n), deadline=deadline
        )

    failed = set()
    total = threads.Result()
    for k, res in pmap(work, jobs):
        name, spec, bound, i, n, runs = jobs[k]
        total.merge(res)
        shown = f"{name} run on" if runs else name
        if name.startswith(("crowd ", "targets ")):
            shown = name.split()[0]
        check.part(
            f"{part}:{shown}",
            bound=0,
            schedules=res.schedules,
            steps=res.steps,
        )
        check.parts[f"{part}:{shown}"]["bound"] = bound
        if res.capped:
            check.exhaustive = False
        if res.violation and name not in failed:
            failed.add(name)
            message, devs = res.violation
            check.violation(
                f"{part}:{name}",
                message,
                dict(part=part, name=name, devs=devs, sticky=runs),
            )
    check.count(
        states=total.states, transitions=total.steps, traces=total.schedules
    )
    check.part(
        f"{part}:total",
        schedules=total.schedules,
        outcomes=len(total.outcomes),
        diverged=total.diverged,
        unstable_replays=total.unstable,
        longest=0,
    )
    check.parts[f"{part}:total"]["longest"] = total.max_points
    return total
