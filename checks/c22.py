"""
C22: signatures & package summaries verify only what was signed.
"""

import asyncio
import copy
import hashlib
import itertools
import json
import os
import shutil

from mc import boot
from mc.report import Check, pmap
from . import inline
from .c12 import scratch
from .spellings import spellings

A = boot.load()
Ed = A.Ed25519
Signer = A.PackageSigner
Verifier = A.PackageVerifier


class Bad(Exception):
    pass


def refused(call, *args, **kw):
    try:
        out = call(*args, **kw)
        if asyncio.iscoroutine(out):
            asyncio.run(out)
    except Exception as e:
        return e
    return None


def changes(value, bits=(1, 0x80)):
    out = set()
    for i in range(len(value)):
        for bit in bits:
            out.add(value[:i] + bytes([value[i] ^ bit]) + value[i + 1 :])
        out.add(value[:i])
        out.add(value[i + 1 :])
        out.add(value[:i] + value[i + 1 :])
    for more in (b"\x00", b"a", value):
        out |= {value + more, more + value}
    if len(value) < 300:
        out.update(spellings(value))
    return sorted(out - {value})


# ---- signatures -------------------------------------------------------


def signatures(message, bits):
    n = 0
    signer, other = Ed().generate(), Ed().generate()
    public = Ed().import_public_key(signer.public_bytes)
    sigs = [signer.sign(message), asyncio.run(signer.asign(message))]
    rest = dict(public_key=other.public_key)
    for sig in sigs:
        for ok, call, kw in (
            (True, signer.verify, {}),
            (True, public.verify, {}),
            (True, signer.averify, {}),
            (True, other.verify, dict(public_key=signer.public_key)),
            (True, other.averify, dict(public_key=signer.public_bytes)),
            (False, other.verify, {}),
            (False, other.averify, {}),
            (False, signer.verify, rest),
            (False, signer.averify, dict(public_key=other.public_bytes)),
            (False, public.verify, rest),
        ):
            n += 1
            e = refused(call, sig, message, **kw)
            if ok != (e is None):
                raise Bad(f"{message!r} {kw} {call}: {e!r}")
    sig = sigs[0]
    for who in (signer.verify, public.verify, public.averify):
        for new in changes(sig, bits):
            n += 1
            if refused(who, new, message) is None:
                raise Bad(f"altered signature {new.hex()} of {sig.hex()} verifies")
        for new in changes(message, bits):
            n += 1
            if refused(who, sig, new) is None:
                raise Bad(f"signature of {message!r} verifies {new!r}")
        if refused(who, other.sign(message), message) is None:
            raise Bad("another's signature verifies")
    if refused(public.sign, message) is None or refused(Ed().sign, message) is None:
        raise Bad("signed without a secret key")
    return n, n


def edges(size):
    """
    The places in a long value near its ends & near round sizes.
    """
    out = {0, 1, size // 2, size - 2, size - 1}
    for power in range(5, size.bit_length() + 1):
        for off in (-1, 0, 1):
            out |= {2**power + off, 10 ** (power % 7) + off}
    return sorted(i for i in out if 0 <= i < size)


def long_ones(size):
    """
    Long messages, & a long file of a package, changed near round sizes.
    """
    inline.use()
    n = 0
    message = hashlib.shake_128(b"long").digest(size)
    signer = Ed().generate()
    public = Ed().import_public_key(signer.public_bytes)
    sigs = [signer.sign(message), asyncio.run(signer.asign(message))]
    others = []
    for i in edges(size):
        others.append(message[:i] + bytes([message[i] ^ 1]) + message[i + 1 :])
        others.append(message[:i])
        others.append(message[:i] + message[i + 1 :])
    others += [message + b"\x00", b"\x00" + message, message + message]
    for sig in sigs:
        for who in (signer.verify, public.averify):
            n += 1
            if e := refused(who, sig, message):
                raise Bad(f"signature of {size} bytes: {e!r}")
            for new in others:
                n += 1
                if refused(who, sig, new) is None:
                    raise Bad(f"signature of {size} bytes verifies {len(new)} others")
    root = scratch()
    try:
        _, summary = signed(root, files={"long.py": message}, key=signer.secret_bytes)
        write(root, {"long.py": message})
        v = Verifier(signer.public_bytes, path=root)
        if e := refused(v.verify_summary, summary):
            raise Bad(f"file of {size} bytes: {e!r}")
        for new in others:
            n += 1
            write(root, {"long.py": new})
            if refused(v.verify_summary, summary) is None:
                raise Bad(f"file of {size} bytes: {len(new)} other ones verify")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n


IMPORTS = [
    *(("import_secret_key", x) for x in ("secret bytes", "secret", "bad", "public")),
    *(("import_public_key", x) for x in ("public bytes", "public", "bad", "secret")),
    ("generate", None),
]


def imports(cls_name, first, depth):
    """
    All histories of imports: the first which succeeds is the last.
    """
    cls = getattr(A, cls_name)
    n = traces = 0
    steps = [(*s, form) for s in IMPORTS for form in (0, 1)]
    for tail in itertools.product(steps, repeat=depth - 1):
        path = (steps[first],) + tail
        key = cls()
        traces += 1
        held = None
        for name, arg, form in path:
            n += 1
            source = cls().generate()
            value = {
                "secret bytes": source.secret_bytes,
                "secret": source.secret_key,
                "public bytes": source.public_bytes,
                "public": source.public_key,
                "bad": b"too short",
            }.get(arg)
            args = () if arg is None else (value,)
            before = held
            e = refused(getattr(key, ("a" if form else "") + name), *args)
            fits = arg is None or (arg != "bad" and arg.split()[0] in name)
            if e is None and (held is not None or not fits):
                raise Bad(f"{cls_name} {path}: {name} {arg} was accepted")
            if e is not None and held is None and fits:
                raise Bad(f"{cls_name} {path}: {name} {arg} failed, {e!r}")
            if e is None:
                secret = "public" not in name
                if arg is not None and key.public_bytes != source.public_bytes:
                    raise Bad(f"{cls_name} {path}: another key is held")
                if secret and arg and key.secret_bytes != source.secret_bytes:
                    raise Bad(f"{cls_name} {path}: another secret is held")
                held = (key.public_bytes, key.secret_bytes if secret else None)
            now = (
                (
                    key.public_bytes,
                    key.secret_bytes if key.has_secret_key() else None,
                )
                if key.has_public_key()
                else None
            )
            if now != held:
                raise Bad(f"{cls_name} {path}: {before} became {now}")
        for name in ("_secret_key", "_public_key", "public_key", "secret_key"):
            if held and refused(setattr, key, name, None) is None:
                raise Bad(f"{cls_name} {path}: {name} was assigned")
    return n, traces


# ---- summaries --------------------------------------------------------

PROFILE = dict(
    username=b"username", passphrase=b"a fine passphrase", mb=1, cpu=1, cores=1
)
FILES = {"a.py": b"print(1)", "sub/b.py": b"", "c d": bytes(range(40)), "t": spellings()[0]}


def write(root, files):
    for name, data in files.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)


def signed(root, *, files=FILES, key=None):
    signer = Signer(
        package="pkg", version="1.0", date=19000, build=7, notes=["x", {"y": None}]
    )
    signer.connect_to_secure_database(**PROFILE, path=root)
    signer.update_signing_key(key or signer.generate_signing_key())
    signer.update_public_credentials(name="somebody", mail="a@b")
    for name, data in files.items():
        signer.add_file(name, data)
    return signer, signer.sign_package().summarize()


def paths(value, at=()):
    yield at
    if isinstance(value, dict):
        for k in value:
            yield from paths(value[k], (*at, k))
    elif isinstance(value, list):
        for i in range(len(value)):
            yield from paths(value[i], (*at, i))


def get(value, at):
    for k in at:
        value = value[k]
    return value


def alterations(summary):
    """
    Every field replaced, removed, renamed, exchanged & added to.
    """
    places = [p for p in paths(summary) if p]
    for at in places:
        old = get(summary, at)
        for new in (None, 0, 1, "", "x", "00", [], {}, old, [old], {"x": old}):
            yield at, "replaced", new
        if isinstance(old, str):
            for i in range(len(old)):
                flip = old[:i] + ("0" if old[i] != "0" else "1") + old[i + 1 :]
                yield at, "replaced", flip
            yield at, "replaced", old + "00"
            yield at, "replaced", old[:-2]
            yield at, "replaced", old + " x"
        if isinstance(old, int):
            yield at, "replaced", old + 1
            yield at, "replaced", str(old)
            yield at, "replaced", float(old)
        if isinstance(get(summary, at[:-1]), dict):
            yield at, "renamed", "other"
            yield at, "renamed", str(at[-1]) + " "
        yield at, "removed", None
    for at in [(), *places]:
        if isinstance(get(summary, at), dict):
            yield at, "added", ("new", "x")
            yield at, "added", ("", None)
            yield at, "added", ("d.py", hashlib.sha384(b"").hexdigest())
    for one, two in itertools.combinations(places, 2):
        if one != two[: len(one)] and get(summary, one) != get(summary, two):
            yield one, "exchanged", two


def apply(summary, at, how, what):
    new = copy.deepcopy(summary)
    if how == "added":
        get(new, at)[what[0]] = what[1]
        return new
    parent = get(new, at[:-1])
    if how == "replaced":
        parent[at[-1]] = what
    elif how == "renamed":
        value = parent.pop(at[-1])
        parent[what] = value
    elif how == "removed":
        del parent[at[-1]]
    else:
        two = get(new, what[:-1])
        parent[at[-1]], two[what[-1]] = two[what[-1]], parent[at[-1]]
    return new


def rechecked(summary):
    """
    With the checksum made to fit again.
    """
    new = dict(summary)
    new.pop("checksum", None)
    sig = new.pop("signature", "")
    total = hashlib.sha384(json.dumps(new).encode()).hexdigest()
    return dict({"checksum": total}, **new, signature=sig)


def altered(part, parts, files_too):
    inline.use()
    n = 0
    root = scratch()
    try:
        key = Ed().generate()
        signer, summary = signed(root, key=key)
        write(root, FILES)
        keys = [key.public_bytes, key.public_key, key, Ed().import_public_key(key.public_bytes)]
        verifiers = [Verifier(k, path=root) for k in keys]
        verifiers += [Verifier(k, verify_files=False) for k in keys[:2]]
        if part == 0:
            for v in verifiers:
                for form in (summary, json.dumps(summary), json.dumps(summary).encode()):
                    n += 1
                    e = refused(v.verify_summary, form)
                    if e is not None:
                        raise Bad(f"the signed summary is refused: {e!r}")
            other = Ed().generate()
            for v in (Verifier(other.public_bytes, path=root), Verifier(other, verify_files=False)):
                n += 1
                if refused(v.verify_summary, summary) is None:
                    raise Bad("verified with another key")
        base = json.dumps(summary, sort_keys=True)
        for k, (at, how, what) in enumerate(alterations(summary)):
            if k % parts != part:
                continue
            new = apply(summary, at, how, what)
            if json.dumps(new, sort_keys=True) == base:
                continue
            for form in (new, rechecked(new)):
                if json.dumps(form, sort_keys=True) == base:
                    continue
                for v in (verifiers[0], verifiers[-1]):
                    n += 1
                    value = json.dumps(form) if k % 2 else form
                    if refused(v.verify_summary, value) is None:
                        raise Bad(f"verified though {at} {how} {what!r}")
                    if k % 7 == 0 and refused(v.verify_summary, summary):
                        raise Bad(f"the signed summary is refused after {at} {how}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n


def forged():
    """
    Someone else's signature over an altered summary.
    """
    inline.use()
    n = 0
    root = scratch()
    try:
        key, other = Ed().generate(), Ed().generate()
        signer, summary = signed(root, key=key)
        write(root, FILES)
        for own_key, alter in itertools.product((0, 1), (0, 1)):
            new = copy.deepcopy(summary)
            if own_key:
                new["signing_key"] = other.public_bytes.hex()
            if alter:
                new["scope"]["version"] = "6.6"
            new = rechecked(new)
            new["signature"] = other.sign(bytes.fromhex(new["checksum"])).hex()
            for kw in (dict(path=root), dict(verify_files=False)):
                n += 1
                if refused(Verifier(key.public_bytes, **kw).verify_summary, new) is None:
                    raise Bad(f"a forged summary verifies {own_key} {alter}")
                e = refused(Verifier(other.public_bytes, **kw).verify_summary, new)
                if (e is None) != bool(own_key):
                    raise Bad(f"own summary {own_key} {alter}: {e!r}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n


def many(count):
    """
    Every one of many files & credentials & scopes counts.
    """
    inline.use()
    n = 0
    root = scratch()
    try:
        key = Ed().generate()
        listed = {f"f{i}.py": b"%d" % i for i in range(count)}
        extra = {f"s{i}": i for i in range(count)}
        signer = Signer("many", "1", **extra)
        signer.connect_to_secure_database(**PROFILE, path=root)
        signer.update_signing_key(key.secret_bytes)
        signer.update_public_credentials(**{f"c{i}": i for i in range(count)})
        for name, data in listed.items():
            signer.add_file(name, data)
        summary = signer.sign_package().summarize()
        text = json.dumps(summary)
        write(root, listed)
        v = Verifier(key.public_bytes, path=root)
        if e := refused(v.verify_summary, summary) or refused(v.verify_summary, text):
            raise Bad(f"{count} files: {e!r}")
        for i, name in enumerate(listed):
            n += 4
            write(root, {name: b"other"})
            if refused(v.verify_summary, summary) is None:
                raise Bad(f"{count} files: file {i} doesn't count")
            write(root, {name: listed[name]})
            for group, field in (
                ("checksums", name),
                ("scope", f"s{i}"),
                ("public_credentials", f"c{i}"),
            ):
                if field not in summary[group]:
                    raise Bad(f"{count} files: {field} isn't in the summary")
                other = copy.deepcopy(summary)
                other[group][field] = "00" * 48
                if refused(v.verify_summary, other) is None:
                    raise Bad(f"{count} files: {field} doesn't count")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n


def files(bits):
    """
    Every byte of every listed file altered, files cut, grown, removed,
    exchanged.
    """
    inline.use()
    n = 0
    root = scratch()
    try:
        key = Ed().generate()
        signer, summary = signed(root, key=key)
        v = Verifier(key.public_bytes, path=root)
        loose = Verifier(key.public_bytes, verify_files=False)

        def judge(what, good=False):
            e = refused(v.verify_summary, summary)
            if (e is None) != good:
                raise Bad(f"{what}: {e!r}")

        write(root, FILES)
        judge("as signed", True)
        for name, data in FILES.items():
            for new in [*changes(data, bits), b"\x00", b"\n"]:
                if new == data:
                    continue
                n += 1
                write(root, {name: new})
                judge(f"{name} is {new}")
                if refused(loose.verify_summary, summary):
                    raise Bad("files count though they shouldn't be verified")
            os.unlink(os.path.join(root, name))
            judge(f"without {name}")
            write(root, FILES)
            judge("as signed again", True)
        for one, two in itertools.permutations(FILES, 2):
            n += 1
            write(root, {one: FILES[two]})
            judge(f"{one} is {two}")
            write(root, {one: FILES[two], two: FILES[one]})
            judge(f"{one} & {two} exchanged")
            write(root, FILES)
        # given relative to where the process was at that time
        home = os.getcwd()
        try:
            for spelled in (".", "sub/..", "./"):
                n += 1
                os.chdir(root)
                near = Verifier(key.public_bytes, path=spelled)
                os.chdir(home)
                if e := refused(near.verify_summary, summary):
                    raise Bad(f"not verified in {spelled!r}: {e!r}")
                os.chdir(os.path.join(root, "sub"))
                lost = Verifier(key.public_bytes, path=".")
                os.chdir(root)
                if refused(lost.verify_summary, summary) is None:
                    raise Bad("verified the files of another directory")
        finally:
            os.chdir(home)
        # what isn't listed doesn't matter
        write(root, {"more.py": b"x"})
        judge("another file", True)
        judge_elsewhere = Verifier(key.public_bytes, path=os.path.join(root, "sub"))
        if refused(judge_elsewhere.verify_summary, summary) is None:
            raise Bad("verified files of another directory")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n


# ---- signing histories ------------------------------------------------

OPS = (
    ("file", "a", b"1"),
    ("file", "a", b"2"),
    ("file", "b", b"1"),
    ("scope", "version", "2"),
    ("scope", "extra", 1),
    ("credential", "name", "x"),
    ("key", 0),
    ("key", 1),
    ("sign",),
    ("reopen",),
    ("save",),
)


class Model:
    def __init__(self):
        self.saved = dict(key=None, credentials={}, versions={})
        self.open()

    def open(self):
        self.live = copy.deepcopy(self.saved)
        self.files = {}
        self.scope = dict(package="pkg", version="1", date=19000)

    def content(self):
        return copy.deepcopy(
            (self.files, self.scope, self.live["credentials"], self.live["key"])
        )

    def do(self, op):
        """
        Whether it succeeds.
        """
        kind, args = op[0], op[1:]
        if kind == "file":
            self.files[args[0]] = args[1]
        elif kind == "scope":
            self.scope[args[0]] = args[1]
        elif kind == "credential":
            self.live["credentials"][args[0]] = args[1]
        elif kind == "key":
            self.live["key"] = args[0]
        elif kind == "sign":
            if self.live["key"] is None:
                return False
            self.live["versions"][self.scope["version"]] = self.content()
            self.saved = copy.deepcopy(self.live)
        elif kind == "save":
            self.saved = copy.deepcopy(self.live)
        else:
            self.open()
        return True

    def summarizes(self):
        signed_ = self.live["versions"].get(self.scope["version"])
        return self.live["key"] is not None and signed_ == self.content()


def opened(root):
    signer = Signer(package="pkg", version="1", date=19000)
    return signer.connect_to_secure_database(**PROFILE, path=root)


def histories(prefix, depth):
    inline.use()
    n = traces = 0
    keys = [Ed().generate(), Ed().generate()]
    root = scratch()
    try:
        for tail in itertools.product(OPS, repeat=depth - len(prefix)):
            path = tuple(OPS[i] for i in prefix) + tail
            # nothing before the first key can be signed
            model = Model()
            traces += 1
            shutil.rmtree(root)
            os.mkdir(root)
            signer = opened(root)
            for op in path:
                n += 1
                fine = model.do(op)
                kind, args = op[0], op[1:]
                if kind == "file":
                    call = lambda: signer.add_file(*args)  # noqa: E731
                elif kind == "scope":
                    call = lambda: signer.update_scope(**dict([args]))  # noqa: E731
                elif kind == "credential":
                    call = lambda: signer.update_public_credentials(**dict([args]))  # noqa: E731
                elif kind == "key":
                    key = keys[args[0]]
                    given = (key, key.secret_bytes, key.secret_key)[n % 3]
                    call = lambda: signer.update_signing_key(given)  # noqa: E731
                elif kind == "sign":
                    call = signer.sign_package
                elif kind == "save":
                    call = signer.db.save_database
                else:
                    signer = opened(root)
                    call = lambda: None  # noqa: E731
                e = refused(call)
                if (e is None) != fine:
                    raise Bad(f"{path}: {op} gave {e!r}")
            try:
                summary = signer.summarize()
            except Exception as e:
                if model.summarizes():
                    raise Bad(f"{path}: no summary, {e!r}")
                continue
            if not model.summarizes():
                raise Bad(f"{path}: a summary of what wasn't signed")
            who = model.live["key"]
            expect = dict(
                scope=model.scope,
                public_credentials=model.live["credentials"],
                checksums={
                    k: hashlib.sha384(v).hexdigest() for k, v in model.files.items()
                },
                signing_key=keys[who].public_bytes.hex(),
            )
            for field, value in expect.items():
                if summary[field] != value:
                    raise Bad(f"{path}: {field} is {summary[field]}")
            for k in (0, 1):
                e = refused(
                    Verifier(keys[k].public_bytes, verify_files=False).verify_summary,
                    json.dumps(summary),
                )
                if (e is None) != (k == who):
                    raise Bad(f"{path}: key {k} gives {e!r}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, traces


def credentials():
    """
    Signing state opens with the credentials it was saved with, only.
    """
    inline.use()
    n = 0
    root = scratch()
    wrong = [
        dict(username=b"Username"),
        dict(passphrase=b"a wrong passphrase"),
        dict(salt=b"s"),
        dict(cpu=2),
        dict(mb=2),
        dict(cores=2),
        dict(more=(b"x",)),
        dict(more=(b"",)),
    ]
    try:
        key = Ed().generate()
        signer, summary = signed(root, key=key)
        for kw in [{}, *wrong, {}]:
            n += 1
            more = kw.get("more", ())
            kw = {k: v for k, v in kw.items() if k != "more"}
            again = Signer(
                package="pkg", version="1.0", date=19000, build=7, notes=["x", {"y": None}]
            )
            e = refused(again.connect_to_secure_database, *more, **{**PROFILE, **kw}, path=root)
            if kw or more:
                if e is None and refused(lambda: again.signing_key) is None:
                    raise Bad(f"{kw} {more} opens the signing key")
                continue
            for name, data in FILES.items():
                again.add_file(name, data)
            if again.signing_key.secret_bytes != key.secret_bytes:
                raise Bad("another signing key came back")
            if again.summarize() != summary:
                raise Bad("another summary came back")
        # the key of a package isn't of use to another
        other = Signer(package="other", version="1")
        other.connect_to_secure_database(**PROFILE, path=root)
        if refused(lambda: other.signing_key) is None:
            raise Bad("a new package has a signing key")
        mine = Signer(package="pkg", version="1")
        mine.connect_to_secure_database(**PROFILE, path=root)
        other.db["other"]["signing_key"] = mine.db["pkg"]["signing_key"]
        if refused(lambda: other.signing_key) is None:
            raise Bad("the stored signing key of a package opens for another")
        lone = Signer(package="pkg", version="1")
        for call in (lone.sign_package, lone.summarize, lambda: lone.signing_key):
            n += 1
            if refused(call) is None:
                raise Bad("worked without a database")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return n, n


SECTIONS = dict(
    signatures=signatures,
    long_ones=long_ones,
    imports=imports,
    altered=altered,
    forged=forged,
    files=files,
    many=many,
    histories=histories,
    credentials=credentials,
)


def jobs_for(thorough):
    jobs = []
    bits = tuple(1 << i for i in range(8)) if thorough else (1, 0x80)
    # a key, then all that may follow
    for first in range(len(OPS)):
        for second in range(len(OPS)):
            if thorough or OPS[first][0] in ("key",):
                jobs.append(("histories", ((first, second), 4)))
        if not thorough:
            jobs.append(("histories", ((first,), 2)))
    if not thorough:
        # signed once
        for third in range(len(OPS)):
            jobs.append(("histories", ((0, 6, 8, third), 5)))
    for i in range(8):
        jobs.append(("altered", (i, 8, 1)))
    messages = (b"", b"a", b"message" * 5, bytes(range(200 if thorough else 64)))
    for message in (*messages, spellings()[0]):
        jobs.append(("signatures", (message, bits)))
    for cls in ("Ed25519", "X25519"):
        for first in range(2 * len(IMPORTS)):
            jobs.append(("imports", (cls, first, 4 if thorough else 3)))
    jobs.append(("forged", ()))
    jobs.append(("files", (bits,)))
    for count in (0, 1, 2, 3, 9, 17, 33, *((65, 130) if thorough else ())):
        jobs.append(("many", (count,)))
    for size in (129, 4097, 65_537, 300_001, *((2**20 + 1, 2**23) if thorough else ())):
        jobs.append(("long_ones", (size,)))
    jobs.append(("credentials", ()))
    return jobs


def work(job):
    name, args = job
    try:
        return SECTIONS[name](*args), None
    except Bad as e:
        return (0, 0), str(e)[:1500]


def main():
    check = Check("C22", "model_checking")
    jobs = jobs_for(check.thorough)
    bad = 0
    for i, ((n, traces), problem) in pmap(work, jobs):
        name, args = jobs[i]
        check.count(states=traces, transitions=n, traces=traces)
        check.part(name, jobs=1, calls=n)
        if problem and bad < 5:
            bad += 1
            check.violation(f"{name}:{i}", problem, dict(job=i, tier=check.tier))
    for job in jobs[::20]:
        check.sample(repr(job)[:200])
    return check.finish()


def replay(data):
    out = work(jobs_for(data["tier"] == "thorough")[data["job"]])
    print(out)
    return 1 if out[1] else 0
