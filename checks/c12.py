"""C12: example databases behave like maps from keys to sets of byte strings."""

import contextlib
import os
import queue
import shutil
import tempfile
import types

from symx.api import Ob, need

BOUNDS = (
    "histories of 3 (thorough 4) arbitrary save/delete/move calls, with arbitrary keys and values of up to one byte (so every pattern of coincidences between them), fetched and compared "
    "with the map for every key and value afterwards; two wrapped databases with arbitrary previous content for the wrappers; for the background writer every number of writes "
    "applied after each call; for listeners additions and removals of two listeners at arbitrary points"
)
OUTSIDE = "GitHubArtifactDatabase and the Redis extension, failing file operations, real threads, watchdog events of the directory database, hash collisions"
ASSUMPTIONS = [
    "the directory database runs on a model of the file system (directories, files, rename, unlink, os.renames with pruning); replays use a real temporary directory",
    "truncated SHA-384 is injective on the keys and values used",
    "the writer thread runs its worker between two calls of the same thread, one queued call at a time",
]
OPTS = {"symset": True, "symdict": True, "unhashable": True}
M = "hypothesis.database"
META = b".hypothesis-keys"


# --- a model of the file system ---


class H:
    """the hash of a byte string, which is injective"""

    def __init__(self, data):
        self.data = bytes(data) if type(data) in (bytes, bytearray) else data

    def __eq__(self, o):
        if type(o) is H:
            return self.data == o.data
        return self.data == META and o == "META"

    def __ne__(self, o):
        r = self == o
        return not r

    __hash__ = None

    def __str__(self):
        return "<hash>"


class FS:
    def __init__(self):
        self.dirs = []  # keys
        self.files = []  # [dir, name, content]
        self.temps = {}
        self.n = 0

    def lookup(self, d, n):
        for f in self.files:
            if same(f[0], d) and same(f[1], n):
                return f
        return None

    def has_dir(self, d):
        for x in self.dirs:
            if same(x, d):
                return True
        return False


def same(a, b):
    if type(a) is not type(b):
        return False
    return bool(a == b)


class P:
    """a path: a temporary file, the root, a directory in it, or a file in that"""

    fs = None

    def __init__(self, *parts):
        if parts and type(parts[0]) is P:
            parts = parts[0].parts
        self.parts = tuple(parts)

    def __truediv__(self, x):
        return P(*self.parts, x)

    @property
    def name(self):
        x = self.parts[-1]
        return "META" if type(x) is H and type(x.data) is bytes and x.data == META else x

    @property
    def parent(self):
        return P(*self.parts[:-1])

    def is_dir(self):
        return len(self.parts) == 1 or len(self.parts) == 2 and self.fs.has_dir(self.parts[1])

    def is_file(self):
        p = self.parts
        return p[0] in self.fs.temps if len(p) == 1 and type(p[0]) is str and p[0].startswith("tmp:") else len(p) == 3 and self.fs.lookup(*p[1:]) is not None

    def exists(self):
        return self.is_file() or (not str(self.parts[0]).startswith("tmp:") and self.is_dir())

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if len(self.parts) == 2:
            if self.fs.has_dir(self.parts[1]):
                if not exist_ok:
                    raise FileExistsError(self)
            else:
                self.fs.dirs.append(self.parts[1])

    def read_bytes(self):
        f = self.fs.lookup(*self.parts[1:]) if len(self.parts) == 3 else None
        if f is None:
            raise FileNotFoundError(self)
        return f[2]

    def write_bytes(self, data):
        if len(self.parts) == 1:
            self.fs.temps[self.parts[0]] = data
            return
        self._put(data)

    def _put(self, data):
        if not self.fs.has_dir(self.parts[1]):
            raise FileNotFoundError(self)
        f = self.fs.lookup(*self.parts[1:])
        if f is None:
            self.fs.files.append([self.parts[1], self.parts[2], data])
        else:
            f[2] = data

    def unlink(self, missing_ok=False):
        if len(self.parts) == 1:
            del self.fs.temps[self.parts[0]]
            return
        f = self.fs.lookup(*self.parts[1:])
        if f is None:
            if missing_ok:
                return
            raise FileNotFoundError(self)
        self.fs.files.remove(f)

    def rename(self, target):
        if len(self.parts) == 1:
            if self.parts[0] not in self.fs.temps:
                raise FileNotFoundError(self)
            target._put(self.fs.temps[self.parts[0]])
            del self.fs.temps[self.parts[0]]
        else:
            f = self.fs.lookup(*self.parts[1:])
            if f is None:
                raise FileNotFoundError(self)
            if same(self.parts[1], target.parts[1]) and same(self.parts[2], target.parts[2]):
                return target
            data = f[2]
            target._put(data)
            self.fs.files.remove(f)
        return target

    replace = rename


def fake_os(fs):
    def listdir(p):
        return [f[1] for f in fs.files if same(f[0], p.parts[1])]

    def renames(a, b):
        if not b.parent.exists():
            b.parent.mkdir()
        a.rename(b)
        if not listdir(a.parent):
            fs.dirs[:] = [d for d in fs.dirs if not same(d, a.parts[1])]

    fds = {}

    def mkstemp(*a, **k):
        fs.n += 1
        name = f"tmp:{fs.n}"
        fs.temps[name] = b""
        fds[fs.n] = name
        return fs.n, name

    def write(fd, data):
        fs.temps[fds[fd]] = data
        return len(data)

    def close(fd):
        del fds[fd]

    def replace(a, b):
        return P(a).rename(P(b))

    o = types.SimpleNamespace(listdir=listdir, renames=renames, write=write, close=close, replace=replace, rename=replace, PathLike=os.PathLike, fspath=lambda p: p)
    return o, types.SimpleNamespace(mkstemp=mkstemp)


@contextlib.contextmanager
def patched(mod, **kw):
    old = {}
    try:
        for k, v in kw.items():
            if hasattr(mod, k):
                old[k] = getattr(mod, k)
                setattr(mod, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(mod, k, v)


@contextlib.contextmanager
def directory(env):
    """a directory database, on the model (or, when replaying, in a real directory)"""
    mod = need(M)
    D = need(M, "DirectoryBasedExampleDatabase")
    if not env.symbolic:
        d = tempfile.mkdtemp()
        try:
            yield lambda: D(os.path.join(d, "examples"))
        finally:
            shutil.rmtree(d)
        return
    fs = FS()
    o, t = fake_os(fs)

    class Path(P):
        pass

    P.fs = fs
    for f in ("Path", "os", "tempfile", "_hash"):
        need(M, f)

    class DB(D):
        _metakeys_hash = "META"

    with patched(mod, Path=P, os=o, tempfile=t, _hash=H):
        yield lambda: DB("root")
        env.check(not fs.temps, "a temporary file is left behind")


# --- the background writer ---


class Stop(BaseException):
    pass


class Schedule:
    """the writer thread, which runs when told to"""

    def __init__(self):
        self.target = None
        self.budget = 0

    def run(self, n):
        self.budget = n
        with contextlib.suppress(Stop):
            self.target()

    def thread(self, target=None, **kw):
        self.target = target
        return types.SimpleNamespace(start=lambda: None, is_alive=lambda: True, join=lambda *a: None)

    def queue(self, *a):
        s = self

        class Q(queue.Queue):
            def get(self, block=True, timeout=None):
                if not block:
                    return super().get(False)
                if s.budget <= 0 or self.empty():
                    raise Stop
                s.budget -= 1
                return super().get(False)

        q = Q()
        q.all_tasks_done.wait = lambda *a: s.pump(q)
        return q

    def pump(self, q):
        # Condition.wait releases the lock
        q.all_tasks_done.release()
        try:
            self.run(10**6)
        finally:
            q.all_tasks_done.acquire()
        return True


@contextlib.contextmanager
def background(env):
    mod = need(M)
    B = need(M, "BackgroundWriteDatabase")
    s = Schedule()
    with patched(mod, Thread=s.thread, Queue=s.queue, weakref=types.SimpleNamespace(finalize=lambda *a: None)):
        yield B, s


# --- the model ---


class Ops:
    """arbitrary calls, and which pairs of a key and a value they leave"""

    def __init__(self, env, lens=(0, 1)):
        self.env = env
        self.lens = lens
        self.log = []

    def bytes(self, name):
        return self.env.bytes(name, self.env.options("len", self.lens))

    def pair(self):
        return self.bytes("k"), self.bytes("v")

    def draw(self, ops=("save", "delete", "move")):
        op = self.env.options("op", ops)
        k, v = self.pair()
        if op == "move":
            return (op, k, self.bytes("d"), v)
        return (op, k, v)

    def run(self, db, op):
        getattr(db, op[0])(*op[1:])

    def member(self, k, v, log):
        env = self.env
        r = False
        for op in log:
            if op[0] == "save":
                r = env.Or(r, env.And(k == op[1], v == op[2]))
            elif op[0] == "delete":
                r = env.And(r, env.Not(env.And(k == op[1], v == op[2])))
            else:
                r = env.And(r, env.Not(env.And(k == op[1], v == op[3])))
                r = env.Or(r, env.And(k == op[2], v == op[3]))
        return r

    def agree(self, db, *logs):
        """every key has exactly the values one of the logs leaves"""
        env = self.env
        k, v = self.pair()
        got = list(db.fetch(k))
        for x in got:
            env.check(isinstance(x, bytes), "a fetched value is not bytes")
            env.check(env.Or(*[self.member(k, x, log) for log in logs]), "a value was fetched that is not stored under the key")
        for i, x in enumerate(got):
            for y in got[:i]:
                env.check(env.Not(x == y), "a value was fetched twice")
        env.check(env.Implies(env.Or(*[self.member(k, v, log) for log in logs]), env.Or(*[x == v for x in got])), "a stored value was not fetched")
        env.reach("fetched")


def memory(env):
    return need(M, "InMemoryExampleDatabase")()


def history(env, n, kind, lens=(1,)):
    o = Ops(env, lens)
    with contextlib.ExitStack() as st:
        if kind == "memory":
            db = memory(env)
        elif kind == "directory":
            db = st.enter_context(directory(env))()
        for i in range(n):
            op = o.draw(("save", "move") if i == 0 else ("save", "delete", "move"))
            o.run(db, op)
            o.log.append(op)
        o.agree(db, o.log)


def reopened(env, n, lens=(1,)):
    """two directory databases for the same path share their content"""
    o = Ops(env, lens)
    with directory(env) as new:
        a, b = new(), new()
        for i in range(n):
            op = o.draw(("save", "move") if i == 0 else ("save", "delete", "move"))
            o.run(env.options("db", (a, b)), op)
            o.log.append(op)
        o.agree(env.options("look at", (a, b)), o.log)


def metakeys(env, n, lens=(1,)):
    """every key with a saved value is listed under the meta key, and nothing else"""
    o = Ops(env, lens)
    with directory(env) as new:
        db = new()
        for i in range(n):
            op = o.draw(("save", "move") if i == 0 else ("save", "delete", "move"))
            o.run(db, op)
            o.log.append(op)
        keys = list(db.fetch(META))
        k, v = o.pair()
        env.check(env.Implies(o.member(k, v, o.log), env.Or(*[x == k for x in keys])), "the key of a stored value is not among the recorded keys")
        used = [x for op in o.log for x in (op[1:2] if op[0] == "save" else op[2:3] if op[0] == "move" else ())]
        for x in keys:
            env.check(env.Or(*[x == u for u in used]), "a key is recorded that was never written to")


def read_only(env, n, lens=(1,)):
    o = Ops(env, lens)
    a = memory(env)
    for _ in range(env.choose("saved", 4 - len(lens))):
        op = o.draw(("save",))
        o.run(a, op)
        o.log.append(op)
    R = need(M, "ReadOnlyDatabase")
    db = R(a)
    heard = []
    a.add_listener(heard.append)
    db.add_listener(heard.append)
    for _ in range(n):
        o.run(db, o.draw())
    env.check(not heard, "a listener was told of a change although nothing changed")
    o.agree(env.options("look at", (a, db)), o.log)


def multiplexed(env, n, ro=False, stored=1, lens=(1,)):
    o = Ops(env, lens)
    X = need(M, "MultiplexedDatabase")
    a, b = memory(env), memory(env)
    la, lb = [], []
    saved = [(i, j) for i in range(stored + 1) for j in range(stored + 1)]
    saved = env.options("saved", [x for x in saved if n < 2 or min(x) == 0])
    for db, log, m in ((a, la, saved[0]), (b, lb, saved[1])):
        for _ in range(m):
            op = o.draw(("save",))
            o.run(db, op)
            log.append(op)
    db = X(a, need(M, "ReadOnlyDatabase")(b)) if ro else X(a, b)
    for _ in range(n):
        op = o.draw()
        o.run(db, op)
        la.append(op)
        if not ro:
            lb.append(op)
    o.agree(*env.options("look at", ((db, la, lb), (a, la), (b, lb))))


def writer(env, n, lens=(1,)):
    """whatever the thread has done when, a fetch sees all earlier calls"""
    o = Ops(env, lens)
    a = memory(env)
    heard = []
    with background(env) as (B, s):
        db = B(a)
        for i in range(n):
            op = o.draw(("save", "move") if i == 0 else ("save", "delete", "move"))
            o.run(db, op)
            o.log.append(op)
            s.run(env.choose("applied", i + 2))
            if i + 1 < n and env.bool("fetch"):
                list(db.fetch(b"x"))
        env.options("look at", (lambda: o.agree(db, o.log), lambda: (list(db.fetch(b"x")), o.agree(a, o.log))))()


class Ears:
    def __init__(self):
        self.events = []

    def __call__(self, e):
        self.events.append(e)


def expected(env, o, op, log):
    """the events a call amounts to, as [(condition, event)]"""
    if op[0] == "save":
        return [(env.Not(o.member(op[1], op[2], log)), ("save", (op[1], op[2])))]
    if op[0] == "delete":
        return [(o.member(op[1], op[2], log), ("delete", (op[1], op[2])))]
    same_key = op[1] == op[2]
    return [
        (env.And(env.Not(same_key), o.member(op[1], op[3], log)), ("delete", (op[1], op[3]))),
        (env.Not(o.member(op[2], op[3], log)), ("save", (op[2], op[3]))),
    ]


def check_events(env, got, want, msg):
    want = [e for c, e in want if c]
    env.check(len(got) == len(want), f"{msg}: told of {'more' if len(got) > len(want) else 'fewer'} changes than happened")
    for g, w in zip(got, want):
        env.check(g[0] == w[0], f"{msg}: told of another kind of change")
        env.check(env.And(g[1][0] == w[1][0], g[1][1] == w[1][1]), f"{msg}: told of a change of another key or value")


def listeners(env, n, kind):
    """who listens is told of the changes, in order, and others of nothing"""
    o = Ops(env, (1,))
    with contextlib.ExitStack() as st:
        if kind == "memory":
            db = a = memory(env)
        elif kind == "multiplexed":
            a = memory(env)
            db = need(M, "MultiplexedDatabase")(a)
        elif kind == "background":
            B, s = st.enter_context(background(env))
            a = memory(env)
            db = B(a)
        ears = [Ears(), Ears()]
        on = [False, False]
        for i in range(n):
            todo = env.options("listeners", ("keep", "add", "remove", "clear")) if i else "add"
            if todo == "clear":
                db.clear_listeners()
                on = [False, False]
            elif todo != "keep":
                j = env.choose("which", 2) if i else 0
                if todo == "add":
                    if on[j]:
                        env.cut("added twice")
                    db.add_listener(ears[j])
                else:
                    db.remove_listener(ears[j])
                on[j] = todo == "add"
            op = o.draw(("save", "move") if i == 0 else ("save", "delete", "move"))
            want = expected(env, o, op, o.log)
            for e in ears:
                e.events.clear()
            o.run(db, op)
            o.log.append(op)
            if kind == "background":
                list(db.fetch(b"x"))
            for j in (0, 1):
                if on[j]:
                    check_events(env, ears[j].events, want, "a listener")
                    env.reach("listening")
                else:
                    env.check(not ears[j].events, "told of a change although it is not listening")


def listener_chain(env):
    """listening to a wrapper of two databases hears of each one's changes, also made directly"""
    o = Ops(env, (1,))
    a, b = memory(env), memory(env)
    la, lb = [], []
    db = need(M, "MultiplexedDatabase")(a, b)
    e = Ears()
    db.add_listener(e)
    for _ in range(2):
        op = o.draw()
        e.events.clear()
        target = env.options("target", ("both", "a", "b"))
        want = []
        if target != "b":
            want += expected(env, o, op, la)
            la.append(op)
        if target != "a":
            want += expected(env, o, op, lb)
            lb.append(op)
        o.run({"both": db, "a": a, "b": b}[target], op)
        check_events(env, e.events, want, "a listener of the wrapper")
    db.remove_listener(e)
    e.events.clear()
    o.run(a, o.draw())
    env.check(not e.events, "told of a change although it is not listening")


def both(name, fn, n, budget=60, **kw):
    """with values and keys of one byte, with one call less for those that may be empty, and one call more when thorough"""
    return [
        Ob(name, fn, budget, n=n, opts=OPTS, **kw),
        Ob(f"{name}, or empty", fn, budget, n=max(1, n - 1), lens=(0, 1), opts=OPTS, **kw),
        Ob(f"{name}, more calls", fn, 150, tier="thorough", n=n + 1, opts=OPTS, **kw),
        Ob(f"{name}, more calls or empty", fn, 150, tier="thorough", n=n, lens=(0, 1), opts=OPTS, **kw),
    ]


OBLIGATIONS = [
    *both("in memory", history, 3, kind="memory"),
    *both("directory", history, 3, kind="directory"),
    *both("directory, two databases", reopened, 2),
    *both("directory, recorded keys", metakeys, 2),
    *both("read only", read_only, 2),
    *both("multiplexed", multiplexed, 2),
    *both("multiplexed with read only", multiplexed, 2, ro=True),
    Ob("multiplexed, more stored", multiplexed, 150, tier="thorough", n=1, stored=2, lens=(0, 1), opts=OPTS),
    *both("background writer", writer, 2),
    *[Ob(f"listeners, {k}", listeners, 60, n=2, kind=k, opts=OPTS) for k in ("memory", "multiplexed", "background")],
    *[Ob(f"listeners, {k}, three calls", listeners, 120, tier="thorough", n=3, kind=k, opts=OPTS) for k in ("memory", "multiplexed", "background")],
    Ob("listeners of a wrapper", listener_chain, 60, opts=OPTS),
]
