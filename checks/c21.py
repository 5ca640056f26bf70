"""
C21: key agreement.
"""

import asyncio
import itertools

from mc import boot, tasks
from mc.report import Check, pmap

A = boot.load()
X = A.X25519


class Bad(Exception):
    pass


def key_of(kdf):
    return kdf.shake_256(size=32)


async def call(form, obj, name, *args):
    """
    (value, None) or (None, error)
    """
    try:
        if form:
            return await getattr(obj, "a" + name)(*args), None
        return getattr(obj, name)(*args), None
    except Exception as e:
        return None, e


def as_given(public, shape):
    return X.PublicKey.from_public_bytes(public) if shape else public


def twin(public):
    """
    Other bytes for the same point.
    """
    return public[:-1] + bytes([public[-1] ^ 0x80])


# public values which everyone's exchange maps to nothing
WEAK = [bytes(32), b"\x01" + bytes(31)]


class Party:
    def __init__(self, protocol, role, identity):
        self.protocol, self.role, self.identity = protocol, role, identity
        if protocol == 2 and role == "client":
            self.session = type(identity).dh2_client()
        else:
            self.session = getattr(identity, f"dh{protocol}_{role}")()


class Table:
    """
    One key per transcript & one transcript per key.
    """

    def __init__(self):
        self.by_transcript = {}
        self.by_key = {}

    def add(self, transcript, key, who):
        if self.by_transcript.setdefault(transcript, key) != key:
            raise Bad(f"{who}: different keys from the same values")
        if self.by_key.setdefault(key, transcript) != transcript:
            raise Bad(f"{who}: the same key from different values")


# ---- substitutions ----------------------------------------------------


async def substitutions(protocol, form, part, parts):
    """
    Every transmitted value is replaced with every other one there is.
    """
    n = runs = agreed = 0
    table = Table()
    alice, bob, carol = (X().generate() for _ in range(3))
    own = X().generate()
    # an earlier run between the same two
    old_c, old_s = Party(protocol, "client", alice), Party(protocol, "server", bob)
    sent = old_c.session.send(bob.public_bytes)
    sent = sent if protocol == 3 else (alice.public_bytes, sent)
    old_s.session.receive(*(sent if protocol == 3 else sent[1:]))
    old = dict(old_client=sent[1], old_server=old_s.session.send())
    fixed = dict(
        alice=alice.public_bytes,
        bob=bob.public_bytes,
        carol=carol.public_bytes,
        attacker=own.public_bytes,
        **old,
        zero=WEAK[0],
        alice_twin=twin(alice.public_bytes),
        bob_twin=twin(bob.public_bytes),
    )
    names = [*fixed, "client", "client_twin", "server", "server_twin"]
    k = 0
    to_client = [*fixed]
    slots_server = [x for x in names if not x.startswith("server")]
    for claimed, identity, first, last in itertools.product(
        to_client,
        slots_server if protocol == 3 else ["-"],
        slots_server,
        names,
    ):
        k += 1
        if k % parts != part:
            continue
        runs += 1
        c, s = Party(protocol, "client", alice), Party(protocol, "server", bob)
        shape = k & 1
        out, e = await call(form, c.session, "send", as_given(fixed[claimed], shape))
        n += 1
        if e is not None:
            if claimed != "zero":
                raise Bad(f"sending to {claimed} failed: {e!r}")
            continue
        values = dict(fixed)
        values["client"] = out[1] if protocol == 3 else out
        values["client_twin"] = twin(values["client"])
        if protocol == 3 and out[0] != alice.public_bytes:
            raise Bad("the client sent another identity")
        args = [as_given(values[first], shape)]
        if protocol == 3:
            args.insert(0, as_given(values[identity], shape))
        skdf, e = await call((form + k) & 1, s.session, "receive", *args)
        n += 1
        what = (claimed, identity, first, last)
        weak = "zero" in (identity, first)
        if (e is not None) != weak:
            raise Bad(f"{what}: server's receipt gave {e!r}")
        sent_, e2 = await call(form, s.session, "send")
        if skdf is not None:
            values["server"] = sent_
            values["server_twin"] = twin(sent_)
            if sent_ in fixed.values() or e2 is not None:
                raise Bad(f"{what}: server sent {sent_} {e2!r}")
            claims = values[identity] if protocol == 3 else b""
            t_s = (protocol, claims, values[first], bob.public_bytes, sent_)
            table.add(t_s, key_of(skdf), what)
        elif last.startswith("server"):
            continue
        ckdf, e = await call((form + k) & 1, c.session, "receive", as_given(values[last], shape))
        n += 1
        weak = "zero" in (claimed, last)
        if (e is not None) != weak:
            raise Bad(f"{what}: client's receipt gave {e!r}")
        if ckdf is not None:
            claims = alice.public_bytes if protocol == 3 else b""
            t_c = (protocol, claims, values["client"], values[claimed], values[last])
            table.add(t_c, key_of(ckdf), what)
        genuine = (claimed, identity, first, last) in (
            ("bob", "alice", "client", "server"),
            ("bob", "-", "client", "server"),
        )
        if genuine:
            if ckdf is None or skdf is None or key_of(ckdf) != key_of(skdf):
                raise Bad(f"{what}: honest parties don't agree")
            agreed += 1
        elif ckdf is not None and skdf is not None and key_of(ckdf) == key_of(skdf):
            raise Bad(f"{what}: they agree nonetheless")
    return n, runs, agreed


# ---- impostors --------------------------------------------------------


class Impostor(X):
    """
    Presents one public key but holds some other secret.
    """

    __slots__ = ("shown",)
    side = "identity"

    @property
    def public_bytes(self):
        return getattr(self, "shown", None) or super().public_bytes


class Forgetful(X):
    """
    Its ephemeral keys aren't the ones they're shown to be.
    """

    __slots__ = ("other",)

    def swap(self):
        object.__setattr__(self, "other", X().generate())
        return self

    def generate(self):
        return super().generate().swap()

    async def agenerate(self):
        return (await super().agenerate()).swap()

    def exchange(self, public_key, /):
        known = getattr(self, "other", None)
        return (known or super()).exchange(public_key)

    async def aexchange(self, public_key, /):
        return self.exchange(public_key)


def holder(kind, genuine):
    """
    Someone who presents the public key of `genuine`, knowing its secret
    or not, & knowing the secrets of its ephemeral keys or not.
    """
    if kind == "honest":
        return genuine
    if kind == "no identity secret":
        out = Impostor().generate()
        object.__setattr__(out, "shown", genuine.public_bytes)
        return out
    out = Forgetful()
    return out.import_secret_key(genuine.secret_bytes)


async def impostors(protocol, form):
    """
    Only who knows both secrets agrees with an honest peer.
    """
    n = runs = agreed = 0
    kinds = ("honest", "no identity secret", "no ephemeral secret")
    for ckind, skind, mixed in itertools.product(kinds, kinds, (0, 1)):
        runs += 1
        alice, bob = X().generate(), X().generate()
        c = Party(protocol, "client", holder(ckind, alice))
        s = Party(protocol, "server", holder(skind, bob))
        out, e1 = await call(form, c.session, "send", bob.public_bytes)
        args = out if protocol == 3 else (out,)
        skdf, e2 = await call(form ^ mixed, s.session, "receive", *args)
        back, e3 = await call(form, s.session, "send")
        ckdf, e4 = await call(form ^ mixed, c.session, "receive", back)
        n += 4
        for e in (e1, e2, e3, e4):
            if e is not None:
                raise Bad(f"{(ckind, skind)}: {e!r}")
        same = key_of(ckdf) == key_of(skdf)
        # a client of the two-key exchange has no identity
        fine = skind == "honest" and (
            ckind == "honest" or (protocol == 2 and ckind == kinds[1])
        )
        if same != fine:
            raise Bad(f"{protocol} {ckind} client, {skind} server: agreed {same}")
        agreed += same
    return n, runs, agreed


# ---- orders -----------------------------------------------------------


async def orders(protocol, role, first, depth):
    """
    All sequences of calls on one session. Nothing succeeds twice or out
    of order, & whatever succeeds agrees with the peer.
    """
    steps = ["send", "receive", "receive weak", "receive wrong"]
    if role == "client":
        steps += ["send wrong"]
    steps = [(s, form) for s in steps for form in (0, 1)]
    n = traces = agreed = 0
    alice, bob = X().generate(), X().generate()
    states = set()
    for tail in itertools.product(steps, repeat=depth - 1):
        path = (steps[first],) + tail
        traces += 1
        me = Party(protocol, role, alice if role == "client" else bob)
        peer = Party(protocol, "server" if role == "client" else "client", bob if role == "client" else alice)
        sent = received = failed = tried = None
        if role == "server":
            out = peer.session.send(bob.public_bytes)
            genuine = out if protocol == 3 else (out,)
        for step, form in path:
            n += 1
            kind, _, how = step.partition(" ")
            if role == "client":
                if kind == "send":
                    args = (b"short",) if how else (bob.public_bytes,)
                elif how or sent is None:
                    args = (WEAK[0] if how == "weak" else b"short" if how else bob.public_bytes,)
                else:
                    if not hasattr(me, "answer"):
                        me.peer_kdf = peer.session.receive(*(sent if protocol == 3 else (sent,)))
                        me.answer = peer.session.send()
                    args = (me.answer,)
            elif kind == "send":
                args = ()
            else:
                args = {"weak": (WEAK[0],) * (protocol - 1), "wrong": (b"short",) * (protocol - 1)}.get(how, genuine)
            out, e = await call(form, me.session, kind, *args)
            ok = e is None
            if how and ok:
                raise Bad(f"{protocol} {role} {path}: a bad value was taken")
            if role == "client":
                legal = (kind == "send" and sent is None) or (
                    kind == "receive" and sent is not None and received is None
                )
            else:
                legal = (kind == "receive" and received is None) or (
                    # its own key may be sent again, or for nothing
                    kind == "send" and tried
                )
                tried = tried or kind == "receive"
            if ok and not legal:
                raise Bad(f"{protocol} {role} {path}: {step} out of order")
            if not ok and legal and not how and not failed:
                raise Bad(f"{protocol} {role} {path}: {step} failed, {e!r}")
            failed = failed or (how != "" and not ok)
            if ok and kind == "send":
                if role == "server" and sent not in (None, out):
                    raise Bad(f"{protocol} {role} {path}: another key was sent")
                sent = out
            if ok and kind == "receive":
                received = out
            states.add((kind, how, sent is None, received is None, bool(failed)))
        if received is not None:
            if role == "client":
                other = me.peer_kdf
            else:
                other = peer.session.receive(sent or me.session.send())
            if key_of(other) != key_of(received):
                raise Bad(f"{protocol} {role} {path}: no agreement")
            agreed += 1
    return n, traces, agreed


# ---- tasks at once ----------------------------------------------------


async def at_once(protocol, role):
    """
    Two tasks use one session: at most one of them is served.
    """
    n = runs = agreed = 0
    for devs in itertools.product((0, 1, 2), repeat=4):
        alice, bob = X().generate(), X().generate()
        c = Party(protocol, "client", alice)
        s = Party(protocol, "server", bob)
        runs += 1

        async def delayed(k, obj, name, *args):
            for _ in range(k):
                await asyncio.sleep(0)
            return await call(1, obj, name, *args)

        a, b, d, f = devs
        outs = await asyncio.gather(
            delayed(a, c.session, "send", bob.public_bytes),
            delayed(b, c.session, "send", bob.public_bytes),
        )
        good = [o for o, e in outs if e is None]
        n += 2
        if len(good) != 1:
            raise Bad(f"{len(good)} of two clients' sends succeeded")
        args = good[0] if protocol == 3 else (good[0],)
        outs = await asyncio.gather(
            delayed(d, s.session, "receive", *args),
            delayed(f, s.session, "receive", *args),
        )
        skdf = [o for o, e in outs if e is None]
        n += 2
        if len(skdf) != 1:
            raise Bad(f"{len(skdf)} of two servers' receipts succeeded")
        back = s.session.send()
        outs = await asyncio.gather(
            delayed(a, c.session, "receive", back),
            delayed(d, c.session, "receive", back),
        )
        ckdf = [o for o, e in outs if e is None]
        n += 2
        if len(ckdf) != 1 or key_of(ckdf[0]) != key_of(skdf[0]):
            raise Bad(f"{len(ckdf)} of two clients' receipts, or no agreement")
        agreed += 1
    return n, runs, agreed


async def plain():
    """
    Exchanges of all pairs & keys of all sessions.
    """
    n = 0
    people = [X().generate() if i % 2 else await X().agenerate() for i in range(12)]
    if len({p.public_bytes for p in people}) != len(people):
        raise Bad("generated keys repeat")
    shared = {}
    for a, b in itertools.product(people, repeat=2):
        outs = {
            a.exchange(b.public_bytes),
            a.exchange(b.public_key),
            await a.aexchange(b.public_bytes),
            await a.aexchange(b.public_key),
            b.exchange(a.public_bytes),
        }
        n += 5
        if len(outs) != 1:
            raise Bad("an exchange isn't mutual")
        pair = frozenset((a.public_bytes, b.public_bytes))
        if shared.setdefault(outs.pop(), pair) != pair:
            raise Bad("different pairs share a secret")
    for a in people[:3]:
        for weak in WEAK:
            for form in (0, 1):
                out, e = await call(form, a, "exchange", weak)
                if e is None:
                    raise Bad(f"exchange with {weak.hex()} gave {out.hex()}")
    return n, n, 0


SECTIONS = dict(
    substitutions=substitutions,
    impostors=impostors,
    orders=orders,
    at_once=at_once,
    plain=plain,
)


def jobs_for(thorough):
    jobs = [("plain", ())]
    for protocol in (2, 3):
        for form in (0, 1):
            parts = 16 if protocol == 3 else 2
            for i in range(parts):
                jobs.append(("substitutions", (protocol, form, i, parts)))
            jobs.append(("impostors", (protocol, form)))
        for role in ("client", "server"):
            for first in range(10 if role == "client" else 8):
                jobs.append(("orders", (protocol, role, first, 5 if thorough else 4)))
            jobs.append(("at_once", (protocol, role)))
    return jobs


def work(job):
    name, args = job
    try:
        return asyncio.run(SECTIONS[name](*args)), None
    except Bad as e:
        return (0, 0, 0), str(e)[:1500]


def main():
    check = Check("C21", "model_checking")
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((n, runs, agreed), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=runs, transitions=n, traces=runs)
        check.part(name, jobs=1, calls=n, runs=runs, agreed=agreed)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    for job in jobs[::12]:
        check.sample(repr(job)[:200])
    return check.finish()


def replay(data):
    out = work(jobs_for(data["tier"] == "thorough")[data["job"]])
    print(out)
    return 1 if out[1] else 0
