"""
A reference model of databases: what is in memory, what is listed, &
what is on disk; & a driver which applies the same operations to a real
database of either form.
"""

import itertools

from mc import boot

A = boot.load()
KEY = bytes(range(168))
VALUES = dict(
    v1=b"one",
    v2={"two": [2, None]},
    v3="three",
    v4=b"\x01\x02four",
    big=bytes(range(256)) * 280,
)


class Dead(Exception):
    pass


class Disk:
    """
    (kind, database key, salt, tag) -> content
    """

    def __init__(self):
        self.files = {}
        self.salts = itertools.count(1)


class Node:
    """
    One open database object.
    """

    def __init__(self, disk, key, preload=False, silent=True):
        self.disk = disk
        self.key = key
        self.cache = {}
        self.subs = {}
        self.salt = None
        self.dead = False
        self.load_manifest()
        self.load(preload, silent)

    # -- persistence

    @property
    def root(self):
        return ("root", self.key)

    def load_manifest(self):
        saved = self.disk.files.get(self.root)
        if saved is not None:
            self.salt, listed, metas = saved
            self.listed, self.metas = set(listed), list(metas)
        else:
            if self.salt is None:
                self.salt = next(self.disk.salts)
            self.listed, self.metas = set(), []

    def load(self, preload, silent):
        if preload:
            self.load_tags(silent)
        for name in sorted(set(self.metas)):
            self.metatag(name, preload, silent)

    def load_tags(self, silent=False):
        missing = False
        for tag in self.listed:
            if tag in self.cache:
                continue
            if self.file(tag) in self.disk.files:
                self.cache[tag] = self.disk.files[self.file(tag)]
            elif not silent:
                missing = True
        if missing:
            raise LookupError

    def file(self, tag):
        return ("tag", self.key, self.salt, tag)

    def save(self):
        self.disk.files[self.root] = (
            self.salt,
            tuple(sorted(self.listed)),
            tuple(self.metas),
        )
        for name in self.metas:
            self.subs[name].save()
        for tag in self.cache:
            self.disk.files[self.file(tag)] = self.cache[tag]

    # -- entries

    def set(self, tag, value, cache=True):
        self.cache[tag] = value
        self.listed.add(tag)
        if not cache:
            self.save_tag(tag, True)

    def save_tag(self, tag, drop=False):
        if tag not in self.cache:
            raise LookupError
        self.disk.files[self.file(tag)] = self.cache[tag]
        if drop:
            del self.cache[tag]

    def query(self, tag, silent=False, cache=False):
        if tag in self.cache:
            return self.cache[tag]
        if self.file(tag) not in self.disk.files:
            if silent:
                return None
            raise LookupError
        value = self.disk.files[self.file(tag)]
        if cache:
            self.cache[tag] = value
        return value

    def pop(self, tag, silent=False):
        known = (
            tag in self.listed
            or tag in self.cache
            or self.file(tag) in self.disk.files
        )
        value = self.query(tag, silent=True)
        self.listed.discard(tag)
        self.cache.pop(tag, None)
        self.disk.files.pop(self.file(tag), None)
        if not known and not silent:
            raise LookupError
        return value

    def rollback(self, tag, cache=False):
        if self.file(tag) not in self.disk.files:
            self.listed.discard(tag)
        self.cache.pop(tag, None)
        if cache:
            self.query(tag, silent=True, cache=True)

    def clear_cache(self, metatags=True):
        self.cache.clear()
        if metatags:
            for name in self.metas:
                self.subs[name].clear_cache()

    # -- sub-databases

    def metatag(self, name, preload=False, silent=False):
        if name in RESERVED:
            raise ValueError
        if name not in self.subs:
            self.subs[name] = Node(
                self.disk, (self.key, self.salt, name), preload, silent
            )
        if name not in self.metas:
            self.metas.append(name)
        return self.subs[name]

    def delete_metatag(self, name):
        if name not in self.metas:
            raise LookupError
        self.metatag(name).delete()
        del self.subs[name]
        self.metas.remove(name)

    def delete(self):
        for name in list(self.metas):
            self.metatag(name).delete()
        for tag in self.listed:
            self.disk.files.pop(self.file(tag), None)
        self.disk.files.pop(self.root, None)
        self.dead = True

    # -- views

    def view(self, tags):
        if self.dead:
            return "dead"
        return dict(
            tags=sorted(self.listed),
            metas=sorted(set(self.metas)),
            size=len(self.listed),
            truth=bool(self.listed or self.metas),
            held=[t in self.listed or t in self.cache for t in tags],
            cached=[self.cache.get(t) for t in tags],
            values=[self.query(t, silent=True) for t in tags],
            raises=[
                t not in self.cache
                and self.file(t) not in self.disk.files
                for t in tags
            ],
            subs={
                n: self.subs[n].view(tags) for n in sorted(set(self.metas))
            },
        )

    def frozen(self):
        if self.dead:
            return "dead"
        return (
            self.key,
            self.salt,
            tuple(sorted(self.cache.items())),
            tuple(sorted(self.listed)),
            tuple(self.metas),
            tuple((n, s.frozen()) for n, s in sorted(self.subs.items())),
        )


RESERVED = {"path", "set_tag", "_cache"}


class Model:
    """
    Applies named operations; values are names of VALUES.
    """

    def __init__(self):
        self.disk = Disk()
        self.db = Node(self.disk, "K")

    def target(self, where):
        db = self.db
        for name in where:
            if db.dead:
                raise Dead
            db = db.subs.get(name) if name in db.metas else None
            if db is None:
                raise Dead
        if db.dead:
            raise Dead
        return db

    def apply(self, where, op, args, kw):
        """
        The expected outcome: ("value", v), ("error",), or ("none",).
        """
        try:
            if op == "reopen":
                self.db = Node(self.disk, "K", **kw)
                return ("none",)
            db = self.target(where)
            if op == "query":
                return ("value", db.query(*args, **kw))
            if op == "pop":
                return ("value", db.pop(*args, **kw))
            if op == "set":
                db.set(*args, **kw)
            elif op == "item":
                db.set(*args)
            elif op == "del":
                db.pop(*args, silent=True)
            elif op == "rollback":
                db.rollback(*args, **kw)
            elif op == "clear":
                db.clear_cache(**kw)
            elif op == "save_tag":
                db.save_tag(*args, **kw)
            elif op in ("save", "with"):
                db.save()
            elif op == "load_tags":
                db.load_tags(**kw)
            elif op == "load":
                if kw.get("manifest"):
                    db.load_manifest()
                db.load(kw.get("preload", True), kw.get("silent", False))
            elif op == "reload":
                db.load_manifest()
                db.load(False, False)
            elif op == "metatag":
                db.metatag(*args)
            elif op == "delete_metatag":
                db.delete_metatag(*args)
            elif op == "delete":
                db.delete()
            else:
                raise AssertionError(op)
            return ("none",)
        except (LookupError, ValueError, Dead):
            return ("error",)

    def key(self):
        """
        The state up to renaming of salts.
        """
        names = {}

        def rename(x):
            if isinstance(x, tuple):
                return tuple(map(rename, x))
            if isinstance(x, int) and not isinstance(x, bool):
                return names.setdefault(x, len(names))
            return x

        live = rename(self.db.frozen())
        reach = set()

        def follow(key, depth=0):
            saved = self.disk.files.get(("root", key))
            if saved is None:
                return
            reach.add(("root", key))
            for kind, k, *rest in self.disk.files:
                if kind == "tag" and k == key and rest[0] == saved[0]:
                    reach.add((kind, k, *rest))
            for name in saved[2]:
                follow((key, saved[0], name))

        def follow_live(node):
            if node.dead:
                return
            reach.update(
                f
                for f in self.disk.files
                if f[1] == node.key
                and (f[0] == "root" or f[2] == node.salt)
            )
            for sub in node.subs.values():
                follow_live(sub)

        follow("K")
        follow_live(self.db)
        disk = sorted(
            ((f, self.disk.files[f]) for f in reach), key=repr
        )
        return (live, rename(tuple(disk)))


class Real:
    """
    The same operations on a real database.
    """

    def __init__(self, form, root):
        self.form = form
        self.root = root

    async def open(self, **kw):
        if self.form:
            return await A.AsyncDatabase(KEY, path=self.root, **kw)
        return A.Database(KEY, path=self.root, **kw)

    async def start(self):
        self.db = await self.open()
        return self

    async def call(self, db, name, *a, **kw):
        if self.form:
            return await getattr(db, "a" + name)(*a, **kw)
        return getattr(db, name)(*a, **kw)

    def target(self, where):
        db = self.db
        for name in where:
            if name not in db.metatags:
                raise Dead
            db = getattr(db, name)
        return db

    async def apply(self, where, op, args, kw):
        try:
            if op == "reopen":
                self.db = await self.open(**kw)
                return ("none",)
            db = self.target(where)
            if op == "query":
                return ("value", await self.call(db, "query_tag", *args, **kw))
            if op == "pop":
                return ("value", await self.call(db, "pop_tag", *args, **kw))
            if op == "set":
                tag, value = args
                await self.call(db, "set_tag", tag, VALUES[value], **kw)
            elif op == "item":
                tag, value = args
                db[tag] = VALUES[value]
            elif op == "del":
                del db[args[0]]
            elif op == "rollback":
                await self.call(db, "rollback_tag", *args, **kw)
            elif op == "clear":
                await self.call(db, "clear_cache", **kw)
            elif op == "save_tag":
                drop = len(args) > 1 and args[1]
                await self.call(db, "save_tag", args[0], drop_cache=drop)
            elif op == "save":
                await self.call(db, "save_database")
            elif op == "with":
                if self.form:
                    async with db as same:
                        pass
                else:
                    with db as same:
                        pass
                if same is not db:
                    raise AssertionError("another database was entered")
            elif op == "load_tags":
                await self.call(db, "load_tags", **kw)
            elif op == "load":
                await self.call(db, "load_database", **kw)
            elif op == "reload":
                await self.call(
                    db, "load_database", manifest=True, preload=False
                )
            elif op == "metatag":
                sub = await self.call(db, "metatag", *args)
                if sub is not getattr(db, args[0]):
                    raise AssertionError("not the attached sub-database")
            elif op == "delete_metatag":
                await self.call(db, "delete_metatag", *args)
            elif op == "delete":
                await self.call(db, "delete_database")
            return ("none",)
        except AssertionError:
            raise
        except Exception as e:
            return ("error", type(e).__name__)

    async def view(self, db, tags):
        values, raises = [], []
        for t in tags:
            values.append(await self.call(db, "query_tag", t, silent=True))
            try:
                await self.call(db, "query_tag", t)
                raises.append(False)
            except LookupError:
                raises.append(True)
        metas = sorted(db.metatags)
        return dict(
            tags=sorted(db.tags),
            metas=metas,
            size=len(db),
            truth=bool(db),
            held=[t in db for t in tags],
            cached=[db[t] for t in tags],
            values=values,
            raises=raises,
            subs={n: await self.view(getattr(db, n), tags) for n in metas},
        )
