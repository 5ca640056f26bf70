"""
C23: frozen & typed containers keep their promises.
"""

import asyncio
import copy
import importlib
import itertools
import shutil
import types

from mc import boot
from mc.report import Check, pmap
from .c12 import scratch

A = boot.load()
C = types.SimpleNamespace()
for module in ("slots", "typed_slots", "namespaces", "instances", "configs"):
    vars(C).update(vars(importlib.import_module(f"aiootp.commons.{module}")))
MISSING = object()
RESTRICTED = ("keys", "values", "items", "update", "clear")


class Bad(Exception):
    pass


# ---- families ---------------------------------------------------------


class Kind:
    """
    What's promised of a class: the names of its slots, whether it takes
    any other ones, is frozen & the types of its values.
    """

    def __init__(self, cls, slots, *, frozen, others, types=(), make=None, hidden=()):
        self.cls, self.slots, self.frozen, self.others = cls, slots, frozen, others
        self.types = dict(types)
        self.hidden = set(hidden)
        self.make = make or cls

    def takes(self, content, name, value):
        """
        Whether the value may be set.
        """
        if name in RESTRICTED and self.others is not None:
            return False
        if self.frozen and name in content:
            return False
        if name in self.types and not isinstance(value, self.types[name]):
            return False
        return name in self.slots or bool(self.others)


def build():
    out = {}
    plain = dict(
        Slots=False, OpenSlots=False, FrozenSlots=True, OpenFrozenSlots=True
    )
    for name, frozen in plain.items():
        base = getattr(C, name)
        one = type("One" + name, (base,), dict(__slots__=("a", "b", "_p")))
        two = type("Two" + name, (one,), dict(__slots__=("c",)))
        part = type(
            "Part" + name,
            (base,),
            dict(__slots__=("a", "b", "c"), _UNMAPPED_ATTRIBUTES=frozenset({"b"})),
        )
        open_ = type("Dict" + name, (one,), dict(__slots__=("c", "__dict__")))
        out[one.__name__] = Kind(one, ("a", "b", "_p"), frozen=frozen, others=False)
        out[two.__name__] = Kind(two, ("a", "b", "_p", "c"), frozen=frozen, others=False)
        out[part.__name__] = Kind(
            part, ("a", "b", "c"), frozen=frozen, others=False, hidden=("b",)
        )
        out[open_.__name__] = Kind(
            open_, ("a", "b", "_p", "c"), frozen=frozen, others=True
        )
    spaces = dict(
        Namespace=False,
        OpenNamespace=False,
        FrozenNamespace=True,
        OpenFrozenNamespace=True,
    )
    for name, frozen in spaces.items():
        base = getattr(C, name)
        out[name] = Kind(base, (), frozen=frozen, others=True)
        one = type("One" + name, (base,), dict(__slots__=("a", "b")))
        out[one.__name__] = Kind(one, ("a", "b"), frozen=frozen, others=True)
    typed = dict(
        TypedSlots=False,
        OpenTypedSlots=False,
        FrozenTypedSlots=True,
        OpenFrozenTypedSlots=True,
    )
    for name, frozen in typed.items():
        base = getattr(C, name)
        one = type(
            "One" + name,
            (base,),
            dict(__slots__=("a", "b"), slots_types=dict(a=int, b=(str))),
        )
        two = type(
            "Two" + name,
            (one,),
            dict(__slots__=("c",), slots_types=dict(c=object, b=bytes)),
        )
        out[one.__name__] = Kind(
            one, ("a", "b"), frozen=frozen, others=False, types=dict(a=int, b=str)
        )
        out[two.__name__] = Kind(
            two,
            ("a", "b", "c"),
            frozen=frozen,
            others=False,
            types=dict(a=int, b=bytes, c=object),
        )
    config = type(
        "OneConfig", (C.Config,), dict(__slots__=("a", "b"), slots_types=dict(a=int, b=str))
    )
    out["OneConfig"] = Kind(
        config, ("a", "b"), frozen=True, others=False, types=dict(a=int, b=str)
    )
    inst = type("OneInstance", (C.FrozenInstance,), dict(__slots__=("a", "b")))
    out["OneInstance"] = Kind(inst, ("a", "b"), frozen=True, others=None)
    out["NamespaceMapping"] = Kind(
        A._constants.NamespaceMapping, (), frozen=False, others=True
    )
    return out


KINDS = build()


# ---- operations -------------------------------------------------------

OPS = [
    ("setattr", "a", 1),
    ("setattr", "a", "x"),
    ("setattr", "a", None),
    ("setitem", "a", 2),
    ("setitem", "b", "y"),
    ("setattr", "b", b"z"),
    ("setitem", "b", None),
    ("setitem", "c", None),
    ("setattr", "new", 3),
    ("setitem", 7, "seven"),
    ("setattr", "_p", 0),
    ("setitem", "keys", 1),
    ("setattr", "clear", 1),
    ("update", (("a", 4), ("b", "u"))),
    ("update kw", (("b", "v"), ("new", 5))),
    ("update both", (("a", 6), ("c", 6))),
    ("delattr", "a"),
    ("delitem", "a"),
    ("delitem", "b"),
    ("delattr", "new"),
    ("delitem", 7),
    ("clear",),
    ("init", (("a", 8), ("b", "w"))),
    ("read",),
]
SPARED = [("setitem", "b"), ("setattr", "_p"), ("update both", (("a", 6), ("c", 6))), ("setattr", "b")]
SPARED += [("setattr", "a")]
NAMES = ("a", "b", "c", "new", 7, "_p", "nothing")


def pairs_of(op):
    return dict(op[1])


def perform(obj, op):
    kind = op[0]
    if kind == "setattr":
        setattr(obj, op[1], op[2])
    elif kind == "setitem":
        obj[op[1]] = op[2]
    elif kind == "update":
        obj.update(pairs_of(op))
    elif kind == "update kw":
        obj.update(**pairs_of(op))
    elif kind == "update both":
        (a, av), (b, bv) = op[1]
        obj.update({a: av}, **{b: bv})
    elif kind == "delattr":
        delattr(obj, op[1])
    elif kind == "delitem":
        del obj[op[1]]
    elif kind == "clear":
        obj.clear()
    elif kind == "init":
        obj.__init__(pairs_of(op))
    else:
        repr(obj), str(obj), dir(obj), hash(id(obj))
        copy.copy(obj)


def predict(kind, content, op):
    """
    (content afterwards, whether it has to succeed; None for either)
    """
    name = op[0]
    if name in ("setattr", "setitem"):
        if kind.takes(content, op[1], op[2]):
            return {**content, op[1]: op[2]}, True
        return content, False
    if name in ("update", "update kw", "update both", "init"):
        now = dict(content)
        for k, v in pairs_of(op).items():
            if not kind.takes(now, k, v):
                return now, False
            now[k] = v
        return now, True
    if name in ("delattr", "delitem"):
        if kind.frozen or op[1] not in content:
            return content, False
        return {k: v for k, v in content.items() if k != op[1]}, True
    if name == "clear":
        if not kind.frozen:
            return {}, True
        # clearing nothing may be refused or not
        return content, False if content else None
    return content, None


def observe(kind, obj, content, what, names=NAMES):
    for name in names:
        there = name in content
        value = content.get(name, MISSING)
        if type(name) is str:
            got = getattr(obj, name, MISSING)
            if got is not value and got != value:
                raise Bad(f"{what}: {name} is {got!r}, not {value!r}")
        if kind.others is None:
            continue
        if (name in obj) != there:
            raise Bad(f"{what}: {name} is contained: {not there}")
        try:
            got = obj[name]
        except (AttributeError, KeyError):
            got = MISSING
        if got is not value and got != value:
            raise Bad(f"{what}: item {name} is {got!r}, not {value!r}")
    if kind.others is None:
        return
    shown = {k: v for k, v in content.items() if k not in kind.hidden}
    if len(obj) != len(shown) or bool(obj) != bool(shown):
        raise Bad(f"{what}: length {len(obj)} of {shown}")
    if dict(obj.items()) != shown or set(obj) != set(shown):
        raise Bad(f"{what}: items {dict(obj.items())}, not {shown}")
    if list(obj.keys()) != list(obj) or list(obj.values()) != [obj[k] for k in obj]:
        raise Bad(f"{what}: keys, values & iteration differ")
    if {**obj} != shown if all(type(k) is str for k in shown) else False:
        raise Bad(f"{what}: unpacked differently")


async def aobserve(obj, what):
    if [x async for x in obj] != list(obj):
        raise Bad(f"{what}: asynchronous iteration differs")


def step(kind, obj, content, op, path, names=NAMES):
    after, fine = predict(kind, content, op)
    try:
        perform(obj, op)
        failed = None
    except Exception as e:
        failed = e
    what = f"{kind.cls.__name__} {path}"
    if fine is not None and fine == (failed is not None):
        raise Bad(f"{what}: {op} gave {failed!r}")
    observe(kind, obj, after, what, names)
    return after


def menu(kind):
    out = []
    for op in OPS:
        if kind.others is None and op[0] not in ("setattr", "delattr", "init", "read"):
            continue
        if kind.cls is A._constants.NamespaceMapping and (
            op[0] == "init" or op[1:2] in (("keys",), ("clear",))
        ):
            continue
        out.append(op)
    return out


def histories(name, first, depth):
    kind = KINDS[name]
    n = traces = 0
    ops = menu(kind)
    states = set()
    for tail in itertools.product(ops, repeat=depth - 1):
        path = (ops[first],) + tail
        obj, content = kind.make(), {}
        traces += 1
        for i, op in enumerate(path):
            n += 1
            content = step(kind, obj, content, op, path[: i + 1])
        states.add(repr(sorted(content.items(), key=repr)))
    return n, len(states), traces


MANY = {
    base + form: (frozen, form)
    for form in ("Slots", "Namespace", "TypedSlots")
    for base, frozen in (("", 0), ("Open", 0), ("Frozen", 1), ("OpenFrozen", 1))
}


def many(base, count):
    """
    A container of many: what's promised holds for each of its items.
    """
    frozen, form = MANY[base]
    names = [f"n{i}" for i in range(count)]
    cls, types_, others = getattr(C, base), {}, form == "Namespace"
    if not others:
        space = dict(__slots__=tuple(names))
        if form == "TypedSlots":
            types_ = space["slots_types"] = dict.fromkeys(names, int)
        cls = type("Many" + base, (cls,), space)
    kind = Kind(
        cls, () if others else tuple(names), frozen=bool(frozen), others=others, types=types_
    )
    n = 0
    content = {name: i for i, name in enumerate(names)}
    for made in ("mapping", "keywords", "update", "items"):
        if made == "mapping":
            obj = cls(dict(content))
        elif made == "keywords":
            obj = cls(**content)
        else:
            obj = cls()
            if made == "update":
                obj.update(dict(content))
            else:
                for name, i in content.items():
                    obj[name] = i
        what = (made, count)
        observe(kind, obj, content, f"{base} {what}", names)
        now = dict(content)
        for i, name in enumerate(names):
            for op in (
                ("setattr", name, i + 1000),
                ("setitem", name, i + 2000),
                ("setitem", name, "text"),
                ("update", ((name, i + 3000),)),
                ("delattr", name),
                ("setitem", name, None),
                ("setitem", name, i),
                ("delitem", name),
                ("setattr", name, "text"),
                ("setattr", name, i),
            ):
                n += 1
                # all of the others are looked at now & then
                some = names if i % 16 == 0 or i == count - 1 else (name,)
                if len(some) == 1:
                    after, fine = predict(kind, now, op)
                    try:
                        perform(obj, op)
                        failed = None
                    except Exception as e:
                        failed = e
                    if fine == (failed is not None):
                        raise Bad(f"{base} {what}: {op} gave {failed!r}")
                    now = after
                else:
                    now = step(kind, obj, now, op, what, names)
        observe(kind, obj, now, f"{base} {what}", names)
        n += 1
        now = step(kind, obj, now, ("clear",), what, names)
    return n, n, 4


def closure(name, deep):
    """
    Every operation in every reachable state of the model.
    """
    kind = KINDS[name]
    n = 0
    few = menu(kind)
    if not deep:
        few = [op for op in few if op[:2] not in SPARED]
    seen = {(): ()}
    todo = [((), {})]
    while todo:
        path, content = todo.pop()
        for op in few:
            obj, now = kind.make(), {}
            for i, o in enumerate(path):
                now = step(kind, obj, now, o, path[: i + 1])
            now = step(kind, obj, now, op, (*path, op))
            n += len(path) + 1
            if kind.others is not None:
                asyncio.run(aobserve(obj, f"{name} {path} {op}"))
            key = tuple(sorted(now.items(), key=repr))
            if key not in seen:
                seen[key] = path
                todo.append(((*path, op), now))
    return n, len(seen), n


def makings(name):
    """
    Construction from mappings, keywords & both; copies are equal &
    separate.
    """
    kind = KINDS[name]
    n = 0
    values = dict(a=(1, "x", None), b=("y", b"z", None), c=(None,), new=(3,), keys=(1,))
    for names in itertools.chain.from_iterable(
        itertools.permutations(values, k) for k in range(4)
    ):
        for picked in itertools.product(*(values[x] for x in names)):
            given = dict(zip(names, picked))
            for split in range(len(given) + 1):
                items = list(given.items())
                mapping, kw = dict(items[:split]), dict(items[split:])
                n += 1
                content, fine = predict(kind, {}, ("update", tuple(items)))
                if kind.cls is A._constants.NamespaceMapping and "keys" in given:
                    continue
                try:
                    obj = kind.make(mapping, **kw)
                    failed = None
                except Exception as e:
                    failed = e
                if fine == (failed is not None):
                    raise Bad(f"{name} {mapping} {kw}: {failed!r}")
                if failed is not None:
                    continue
                observe(kind, obj, content, f"{name} {mapping} {kw}")
                twin = copy.copy(obj)
                observe(kind, twin, content, f"copy of {name} {mapping} {kw}")
                if not kind.frozen:
                    for key in list(content):
                        del twin[key]
                    observe(kind, obj, content, f"{name} after emptying a copy")
    return n, n, n


# ---- configurations ---------------------------------------------------


def config_type(name="Sample", base=None):
    return type(
        name,
        (base or C.Config,),
        dict(__slots__=("SIZE",), slots_types=dict(SIZE=int)),
    )


def config_maps(first, depth):
    """
    All histories on a map of configurations.
    """
    Sample = config_type()
    Other = config_type("Other")
    n = traces = 0
    ids = ("x", 1)
    steps = [("set", i, c) for i in ids for c in ("own", "same", "another", "foreign")]
    steps += [("attr", "x", c) for c in ("own", "another", "foreign")]
    steps += [("update", i, c) for i in ids for c in ("own", "another", "foreign")]
    steps += [("del", i, None) for i in ids]
    steps += [("delattr", "x", None), ("clear", None, None), ("foreign id", "x", "own")]
    if first >= len(steps):
        return 0, 0, 0
    for tail in itertools.product(steps, repeat=depth - 1):
        path = (steps[first],) + tail
        traces += 1
        obj = C.ConfigMap(config_type=Sample)
        held = {}
        for k, (what, i, which) in enumerate(path):
            n += 1
            config = None
            if which == "own" or which == "another":
                config = Sample(SIZE=k)
            elif which == "same":
                config = held.get(i) or Sample(SIZE=k)
            elif which == "foreign":
                config = Other(SIZE=k)
            if what == "foreign id":
                config.set_config_id("something else")
            try:
                if what in ("set", "foreign id"):
                    obj[i] = config
                elif what == "attr":
                    setattr(obj, i, config)
                elif what == "update":
                    obj.update({i: config})
                elif what == "del":
                    del obj[i]
                elif what == "delattr":
                    delattr(obj, i)
                else:
                    obj.clear()
                failed = None
            except Exception as e:
                failed = e
            fits = (
                what in ("set", "attr", "update")
                and which != "foreign"
                and (i not in held or held[i] is config)
            )
            if fits:
                held[i] = config
            if fits == (failed is not None) and not (what == "clear" and not held):
                raise Bad(f"map {path[: k + 1]}: {failed!r}")
            got = dict(obj.items())
            if set(got) != set(held) or any(got[j] is not held[j] for j in held):
                raise Bad(f"map {path[: k + 1]}: {got} instead of {held}")
            for j, c in held.items():
                if getattr(c, "CONFIG_ID", MISSING) != j or obj[j] is not c or j not in obj:
                    raise Bad(f"map {path[: k + 1]}: {j} is {c}")
            if "x" in held and obj.x is not held["x"]:
                raise Bad(f"map {path[: k + 1]}: attribute differs")
    return n, traces, traces


def config_ids():
    n = 0
    Sample = config_type()
    ids = ("x", "y", 1, 2, b"x", ("t",), None)
    for one, two in itertools.product(ids, repeat=2):
        for how in range(4):
            n += 1
            c = Sample(SIZE=3)
            c.set_config_id(one)
            try:
                if how == 0:
                    c.set_config_id(two)
                elif how == 1:
                    c.CONFIG_ID = two
                elif how == 2:
                    c["CONFIG_ID"] = two
                else:
                    c.update(CONFIG_ID=two)
                failed = False
            except Exception:
                failed = True
            if failed != (one != two) or c.CONFIG_ID != one or c["CONFIG_ID"] != one:
                raise Bad(f"{one} then {two}: {failed} {c.CONFIG_ID}")
    for bad in ([], {}, set(), bytearray()):
        for how in (0, 1):
            n += 1
            c = Sample(SIZE=3)
            try:
                c.set_config_id(bad) if how else setattr(c, "CONFIG_ID", bad)
            except Exception:
                continue
            raise Bad(f"{bad!r} as an identifier")
    return n, n, n


# ---- the package's own ------------------------------------------------


def owned():
    """
    The frozen namespaces & configurations which the package is made of.
    """
    seen, out = set(), []
    todo = [("aiootp", getattr(A, n)) for n in dir(A)]
    while todo:
        name, x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (C.FrozenNamespace, C.FrozenSlots, C.FrozenTypedSlots)):
            out.append((f"{name}:{type(x).__name__}", x))
            todo += [(f"{name}.{k}", v) for k, v in list(x.items())[:400]]
        elif isinstance(x, type) and x.__module__.startswith("aiootp"):
            todo += [(f"{name}.{k}", v) for k, v in list(vars(x).items())]
    return out


def own(part, parts):
    n = 0
    for k, (name, x) in enumerate(owned()):
        if k % parts != part:
            continue
        before = {key: x[key] for key in x}

        def same(what):
            if list(x) != list(before) or any(x[j] is not before[j] for j in before):
                raise Bad(f"{name}: {what} changed it")

        for key in before:
            tries = [
                ("setting", lambda: x.__setitem__(key, None)),
                ("updating", lambda: x.update({key: None})),
                ("removing", lambda: x.__delitem__(key)),
            ]
            if type(key) is str:
                tries += [
                    ("assigning", lambda: setattr(x, key, None)),
                    ("deleting", lambda: delattr(x, key)),
                ]
            for what, call in tries:
                n += 1
                try:
                    call()
                except Exception:
                    if x[key] is not before[key]:
                        raise Bad(f"{name}: {what} {key} changed it")
                    continue
                raise Bad(f"{name}: {what} {key} succeeded")
        same("all that was refused")
        n += 1
        try:
            x.clear()
        except Exception:
            pass
        same("clearing")
    return n, n, n


# ---- representations --------------------------------------------------


def shows(text, secret):
    """
    Whether any telling part of a secret is in the text.
    """
    if type(secret) is int:
        return str(secret) in text or f"{secret:x}" in text
    if type(secret) is str:
        return any(secret[i : i + 6] in text for i in range(len(secret) - 5))
    hexed = secret.hex()
    if any(hexed[i : i + 12] in text.lower() for i in range(len(hexed) - 11)):
        return True
    for i in range(len(secret) - 5):
        piece = secret[i : i + 6]
        if repr(piece)[2:-1] in text or str(list(piece))[1:-1] in text:
            return True
    return False


SECRET = (
    "quite-a-secret-text",
    b"\x90secret\x07bytes\xff",
    904711387265431,
)
MASKED = ("Slots", "FrozenSlots", "Namespace", "FrozenNamespace", "TypedSlots", "FrozenTypedSlots")


def ways(x):
    return (repr(x), str(x), f"{x}", repr([x]), repr({"k": (x,)}), "%s %r" % (x, x))


def masks():
    """
    Masked representations, in each state of the debugging switch.
    """
    n = 0
    Debug = importlib.import_module("aiootp._debug_control").DebugControl
    asyncio.set_event_loop(asyncio.new_event_loop())
    made = []
    for name in MASKED:
        base = getattr(C, name)
        kw = dict(slots_types=dict(a=object, b=object)) if "Typed" in name else {}
        one = type("Masked" + name, (base,), dict(__slots__=("a", "b"), **kw))
        two = type("Again" + name, (one,), dict(__slots__=()))
        for cls, x in itertools.product((one, two), SECRET):
            for value in (x, [x], {"k": x}, (x, 1), C.OpenNamespace(v=x)):
                made.append((cls(a=value), x))
                made.append((cls(a=1, b=value), x))
                if "Namespace" in name:
                    made.append((cls(other=value), x))
                made.append((C.OpenNamespace(inner=cls(b=value)), x))
    for path in itertools.chain.from_iterable(
        itertools.product((True, False), repeat=k) for k in range(4)
    ):
        try:
            on = False
            for on in path:
                if on:
                    Debug.enable_debugging(silence_warnings=True)
                else:
                    Debug.disable_debugging()
            for x, secret in made:
                for text in ways(x):
                    n += 1
                    if not on and shows(text, secret):
                        raise Bad(f"after {path}: {type(x).__name__} shows {text}")
        finally:
            Debug.disable_debugging()
    return n, n, n


def keepers():
    """
    The objects which hold secrets show nothing of them.
    """
    n = 0
    key = bytes(range(100, 228)) + b"the key itself."
    salt = bytes(range(130, 250))
    out = []
    for cipher in (A.Chunky2048, A.Slick256):
        c = cipher(key)
        out.append((c, (key,)))
        stream = c.stream_encrypt()
        out.append((stream, (key,)))
        stream.buffer(b"a plaintext that's kept" * 40)
        out.append((stream, (key, b"a plaintext that's kept")))
    for kdf in (A.DomainKDF(b"domain", key=key), A.DomainKDF(b"d", key, key=key)):
        out.append((kdf, (key,)))
        out.append((kdf.copy(), (key,)))
    out.append((A.X25519().import_secret_key(key[:32]), (key[:32],)))
    out.append((A.Ed25519().import_secret_key(key[:32]), (key[:32],)))
    own = A.X25519().import_secret_key(key[:32])
    for name in ("dh2_client", "dh2_server", "dh3_client", "dh3_server"):
        out.append((getattr(own, name)(), (key[:32],)))
    root = scratch()
    try:
        db = A.Database(key, path=root)
        db["tag"] = "zq9 kept value"
        db.metatag("sub")["inner"] = "wx7 other value"
        inner = db.metatag("sub")
        out += [(x, (key, "zq9 kept value", "wx7 other value")) for x in (db, inner)]
        for x, secrets in out:
            for secret, shown in itertools.product(secrets, ways(x)):
                n += 1
                if shows(shown, secret):
                    raise Bad(f"{type(x).__name__} shows {shown}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n, n


SECTIONS = dict(
    masks=masks,
    keepers=keepers,
    histories=histories,
    closure=closure,
    many=many,
    makings=makings,
    config_maps=config_maps,
    config_ids=config_ids,
    own=own,
)


def jobs_for(thorough):
    jobs = []
    for name, kind in KINDS.items():
        jobs.append(("closure", (name, thorough)))
        jobs.append(("makings", (name,)))
        for first in range(len(menu(kind))):
            jobs.append(("histories", (name, first, 4 if thorough else 3)))
    for base in MANY:
        for count in (5, 17, 40, 70, *((130, 300) if thorough else ())):
            jobs.append(("many", (base, count)))
    for first in range(24):
        jobs.append(("config_maps", (first, 4 if thorough else 3)))
    jobs.append(("config_ids", ()))
    jobs.append(("masks", ()))
    jobs.append(("keepers", ()))
    for i in range(8):
        jobs.append(("own", (i, 8)))
    return jobs


def work(job):
    name, args = job
    try:
        return SECTIONS[name](*args), None
    except Bad as e:
        return (0, 0, 0), str(e)[:1500]


def main():
    check = Check("C23", "model_checking")
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((n, states, traces), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=states, transitions=n, traces=traces)
        check.part(name, jobs=1, calls=n)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    for job in jobs[::40]:
        check.sample(repr(job)[:200])
    return check.finish()


def replay(data):
    out = work(jobs_for(data["tier"] == "thorough")[data["job"]])
    print(out)
    return 1 if out[1] else 0
