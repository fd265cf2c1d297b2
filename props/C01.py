"""C01 the file cache."""
import os

from pyvc.api import bounded, unit
from pyvc import decks


def Cache(d, v="1"):
    from elsie.utils.cache import FsCache
    return FsCache(d, v)


class Boom(Exception):
    pass


def content(data, typ):
    if isinstance(data, str):
        data = data.encode()
    return b"made:" + data + b":" + typ.encode()


def listing(d):
    return {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d) if os.path.isfile(os.path.join(d, n))}


@bounded("histories", "random histories of 5-25 requests (6 inputs as text or bytes, 3 data types, 3 software versions), "
                      "prunes, new caches on the same directory, failing and half-writing producers, foreign files; "
                      "every result, every production and the directory after every prune")
def histories(B):
    rng = B.rng
    inputs = ["a", "b", "", "a/a", "ž\n\r\nx", b"\x00\xff"]
    for _ in range(B.n(300, 5000)):
        d = decks.fresh_dir()
        foreign = {"keep.txt": b"1", "queries3.cache": b"2", "xcache.1": b"3"}
        for n, c in foreign.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(c)
        stored = {}    # (version, input, type) -> file name
        made_ok = set()
        ops = []
        cache, ver, touched, known = None, None, set(), set()
        for _ in range(rng.randint(5, 25)):
            op = rng.choice(["new"] * 1 + ["ensure"] * 6 + ["get"] * 3 + ["file"] + ["fail"] * 2 + ["prune"])
            if cache is None or op == "new":
                ver = rng.choice(["1", "2", "1/a"])
                cache = Cache(d, ver)
                touched, known = set(), set(stored)
                ops.append(("new", ver))
                continue
            if op == "prune":
                ops.append("prune")
                B.current = ops
                cache.remove_unused()
                gone = known - touched
                for k in gone:
                    stored.pop(k, None)
                known -= gone
                left = listing(d)
                B.eq({n for n in left if n in foreign}, set(foreign), "files that are not of the cache")
                for k in stored:
                    B.check(stored[k] in left, "a requested file was pruned", key_=k)
                for n in left:
                    if n.startswith("cache."):
                        B.check(n in stored.values(), "an unused file was kept", name=n)
                continue
            data = rng.choice(inputs)
            typ = rng.choice(["pdf", "svg", "png"])
            if op == "get":
                typ = "txt"
                if isinstance(data, bytes):
                    data = "bytes"
            key = (ver, data if isinstance(data, bytes) else data.encode(), typ)
            ops.append((op, data, typ))
            B.current = ops
            runs = []

            def producer(inp, target, t):
                runs.append((inp, t))
                with open(target, "wb") as f:
                    f.write(content(inp, t))

            def failing(inp, target=None, t=None):
                runs.append((inp, t))
                if target and rng.random() < 0.7:
                    with open(target, "wb") as f:
                        f.write(b"half")
                raise Boom("x")

            def text(inp):
                runs.append(inp)
                return content(inp, "txt").decode()
            have = key in stored and key in known
            if op == "fail":
                try:
                    p = cache.ensure(data, typ, failing, wait_on_collision=True)
                    B.check(have, "the error of the producer did not reach the caller")
                except Boom:
                    B.check(not have, "the producer was run again")
                touched.add(key)
                continue
            if op == "file":
                src = os.path.join(d, "input")
                with open(src, "wb") as f:
                    f.write(key[1])
                p = cache.ensure_by_file(src, typ, producer)
            elif op == "ensure":
                p = cache.ensure(data, typ, producer)
            else:
                r = cache.get(data, typ, text)
                B.eq(r, content(data, "txt").decode(), "text from the cache")
                p = None
            touched.add(key)
            B.eq(len(runs), 0 if have else 1, "number of productions")
            if p is None:
                new = [n for n in listing(d) if n.startswith("cache.") and n not in stored.values()]
                if not have:
                    B.check(len(new) == 1 or key in stored, "file of the text")
                    if new:
                        stored[key] = new[0]
                known.add(key)
            else:
                B.eq(os.path.dirname(p), d, "directory of the cache file")
                with open(p, "rb") as f:
                    B.eq(f.read(), content(data, typ), "content of the returned file")
                B.check(p.endswith("." + typ), "extension of the returned file")
                stored[key] = os.path.basename(p)
                known.add(key)
            B.check(len(set(stored.values())) == len(stored), "two inputs share a file")
        B.case(ops)


@bounded("crash", "the process dies (without clean-up) at every step of producing a file: before, in the middle of, and "
                  "after writing; text and file results; the next process gets a complete result")
def crash(B):
    for kind in ("ensure", "get"):
        for when in range(5):
            d = decks.fresh_dir()
            B.case((kind, when))
            pid = os.fork()
            if pid == 0:
                try:
                    c = Cache(d)

                    def producer(inp, target, t):
                        if when == 0:
                            os._exit(0)
                        with open(target, "wb") as f:
                            if when == 1:
                                f.flush()
                                os._exit(0)
                            f.write(b"made:")
                            f.flush()
                            if when == 2:
                                os._exit(0)
                            f.write(b"in:pdf")
                            f.flush()
                        if when == 3:
                            os._exit(0)

                    if kind == "ensure":
                        c.ensure("in", "pdf", producer)
                    else:
                        import builtins
                        real = builtins.open

                        class W:
                            def __init__(self, f):
                                self.f = f

                            def write(self, s):
                                if when <= 2:
                                    self.f.write(s[:2 * when])
                                    self.f.flush()
                                    os._exit(0)
                                self.f.write(s)

                            def __enter__(self):
                                return self

                            def __exit__(self, *a):
                                if when == 3:
                                    self.f.flush()
                                    os._exit(0)
                                self.f.close()

                        def op(name, mode="r", *a, **k):
                            f = real(name, mode, *a, **k)
                            return W(f) if "w" in mode and str(name).startswith(d) else f
                        builtins.open = op
                        c.get("in", "txt", lambda i: "made:in:txt" * 10)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            c = Cache(d)
            if kind == "ensure":
                def producer(inp, target, t):
                    with open(target, "wb") as f:
                        f.write(b"made:in:pdf")
                with open(c.ensure("in", "pdf", producer), "rb") as f:
                    B.eq(f.read(), b"made:in:pdf", "result after a crash")
            else:
                B.eq(c.get("in", "txt", lambda i: "made:in:txt" * 10), "made:in:txt" * 10, "result after a crash")


@bounded("failure", "a producer fails, then the same input is requested again, from the same and from a new cache")
def failure(B):
    import signal

    def hang(*_):
        raise TimeoutError("hangs")
    signal.signal(signal.SIGALRM, hang)
    for write in (False, True):
        for again in ("same", "new"):
            for exc in (Boom, KeyboardInterrupt, SystemExit):
                B.case((write, again, exc.__name__))
                d = decks.fresh_dir()
                c = Cache(d)

                def bad(inp, target, t):
                    if write:
                        with open(target, "wb") as f:
                            f.write(b"half")
                    raise exc("no")
                try:
                    c.ensure("in", "pdf", bad)
                    B.fail("the error did not reach the caller")
                except exc:
                    pass
                if again == "new":
                    c = Cache(d)

                def good(inp, target, t):
                    with open(target, "wb") as f:
                        f.write(b"full")
                signal.alarm(5)
                try:
                    p = c.ensure("in", "pdf", good)
                except TimeoutError:
                    B.fail("a request after a failed one hangs")
                finally:
                    signal.alarm(0)
                with open(p, "rb") as f:
                    B.eq(f.read(), b"full", "result after a failure")


@bounded("threads", "two threads request the same file; the second one runs, as far as it gets within 0.2 s, at each of "
                    "the lines the first one executes in the cache")
def threads(B):
    import sys
    import threading
    import elsie.utils.cache as mod
    at = 0
    while True:
        d = decks.fresh_dir()
        c = Cache(d)
        made, got = [], []

        def producer(inp, target, t):
            made.append(inp)
            with open(target, "wb") as f:
                f.write(b"full")

        def request():
            try:
                got.append(c.ensure("in", "pdf", producer))
            except BaseException as e:
                got.append(e)
        other = threading.Thread(target=request, daemon=True)
        count = [0]

        def trace(frame, event, arg):
            if frame.f_code.co_filename != mod.__file__:
                return None
            if event == "line":
                count[0] += 1
                if count[0] == at + 1:
                    other.start()
                    other.join(0.2)
            return trace

        def first():
            sys.settrace(trace)
            try:
                request()
            finally:
                sys.settrace(None)
        B.case(at)
        t = threading.Thread(target=first, daemon=True)
        t.start()
        t.join(20)
        if count[0] <= at:
            break
        other.join(20)
        B.check(not t.is_alive() and not other.is_alive(), "a request of two threads does not end")
        bad = [g for g in got if isinstance(g, BaseException)]
        B.check(not bad, "a request of two threads fails: %r" % bad)
        B.eq(len(made), 1, "number of productions for two threads")
        B.check(len(set(got)) == 1, "two threads get two files")
        with open(got[0], "rb") as f:
            B.eq(f.read(), b"full", "file of two threads")
        B.eq(sorted(listing(d)), [os.path.basename(got[0])], "files after the request of two threads")
        at += 1


@bounded("deck", "decks rendered to PDF with pruning: foreign files stay, files of the last render stay, older ones go, "
                 "rendering again works")
def deck(B):
    for k in range(B.n(4, 20)):
        cache = decks.fresh_dir()
        with open(os.path.join(cache, "mine.txt"), "w") as f:
            f.write("1")
        prev = None
        for it in range(3):
            B.case((k, it))
            d = decks.deck(cache_dir=cache)
            for j in range(2):
                d.new_slide().rect(bg_color="c%d%d%d" % (k, it if j else 0, j))
            for again in range(2):
                with decks.quiet():
                    out = d.render(None, export_type="png")
                B.check(all(os.path.isfile(o) for o in out), "an exported file is missing")
                now = {n for n in os.listdir(cache) if n.startswith("cache.")}
                B.eq(now, {os.path.basename(o) for o in out}, "cache files after pruning")
            B.check(os.path.isfile(os.path.join(cache, "mine.txt")), "foreign file")


# ------------------------------------------------------------------ proofs
DIR = "/cache"


class World:
    """A cache directory with any files in it, of which those with names of the cache are complete: after every single
    change of the directory this has to hold again, whatever happens next."""

    def __init__(self, ctx):
        import builtins
        import hashlib
        import os
        import threading
        import z3
        from pyvc.core import SStr, mk, to_z3
        from pyvc.interp import Interp
        from pyvc.values import Base, RefKind, VSeq, mark
        self.ctx, self.I = ctx, Interp(ctx)
        I, w = self.I, self
        S, Z, B_ = z3.StringSort(), z3.IntSort(), z3.BoolSort()
        self.CT = CT = z3.DeclareSort("Content")
        F = z3.Datatype("File")
        F.declare("none")
        F.declare("some", ("content", CT))
        self.F = F = F.create()
        self.NAME = NAME = z3.DeclareSort("FileName")
        P = z3.Datatype("Path")
        P.declare("inside", ("name", NAME))         # a file of the cache directory
        P.declare("outside", ("where", NAME))
        self.P = P = P.create()
        self.names = {}
        self.hash_facts = False
        self.is_cache = z3.Function("has_cache_name", NAME, B_)
        self.is_temp = z3.Function("has_temporary_name", NAME, B_)
        self.DISK, self.SET = z3.ArraySort(P, F), z3.ArraySort(NAME, B_)
        self.own = z3.Function("content_of_the_name", NAME, CT)
        self.made = z3.Function("made_for", S, S, CT)            # what the producer makes: input, data type
        self.texts = z3.Function("text_content", S, CT)
        self.text_in = z3.Function("text_in", CT, S)
        self.bytes_in = z3.Function("bytes_in", CT, S)
        RefKind("array", self.DISK, lambda v: (v.e, ()) if isinstance(v, Arr) and v.e.sort() == self.DISK else None,
                lambda e, x: Arr(e))
        RefKind("set", self.SET, lambda v: (v.e, ()) if isinstance(v, Arr) and v.e.sort() == self.SET else None,
                lambda e, x: Arr(e))
        self.disk0 = z3.Const("files", self.DISK)
        self.now = Arr(self.disk0)
        ctx.register(self, "disk")
        self.x = ctx.fresh("any_name", NAME)
        self.y = ctx.fresh("any_path", P)
        self.sets = []
        self.named = None
        self.crash = True
        self.waits = 0
        ctx.assume(self.complete0(self.x))

        # the directory listing
        self.n = ctx.int("number_of_files")
        self.name_at = z3.Function("file_name", Z, S)
        self.place = z3.Function("place_of", NAME, Z)
        self.listing = Base(self.n, "listing")

        def elem(k):
            e = mk(self.name_at(k))
            ctx.assume(F.is_some(z3.Select(self.disk0, self.path(self.name(e)))))
            return e

        def listdir(I_, d):
            ctx.prove("the cache directory is listed", d == DIR)
            return VSeq(self.listing, elem)
        I.models[os.listdir] = listdir

        def model(it):
            return Set(w, it)
        ctx.set_model = model
        ctx.dict_model = lambda: Table(w)
        from pyvc.interp import VIRTUAL
        # text and bytes
        ctx.str_hooks["encode"] = lambda s, *a: Bytes(s.expr())

        def join(I_, *parts):
            out = parts[0]
            for p in parts[1:]:
                out = SStr((out, "/", p))
            return out
        I.models[os.path.join] = join
        I.models[os.getpid] = lambda I_: ctx.int("pid")
        I.models[os.replace] = I.models[os.rename] = lambda I_, a, b: w.move(a, b)
        I.models[os.remove] = I.models[os.unlink] = lambda I_, a: w.remove(a)
        I.models[os.path.isfile] = I.models[os.path.exists] = \
            lambda I_, a: mk(F.is_some(z3.Select(w.now.e, w.path_of(a))))
        I.models[builtins.open] = lambda I_, f, mode="r", *a, **kw: Open(w, f, mode, kw)
        for alg, size in (("sha1", 20), ("md5", 16), ("sha224", 28), ("sha256", 32), ("sha384", 48), ("sha512", 64)):
            I.models[getattr(hashlib, alg)] = lambda I_, b=b"", alg=alg, size=size, **kw: Hash(w, alg, size, read_bytes(b))
        lock = w.lock = Lock(w)
        I.models[threading.Lock] = I.models[threading.RLock] = lambda I_: lock
        I.models[threading.Condition] = lambda I_, l=None: Cond(w)

    def name(self, v):
        """the name, as a value of which only the beginning matters"""
        import z3
        from pyvc.core import SStr, Unsupported, mk
        if isinstance(v, str):
            v = SStr((v,))
        if not isinstance(v, SStr):
            raise Unsupported("file name")
        key = repr([p if isinstance(p, str) else p.sexpr() if hasattr(p, "sexpr") else p.e.sexpr() for p in v.parts])
        if key not in self.names:
            n = self.names[key] = z3.Const("name%d" % len(self.names), self.NAME)
        n = self.names[key]
        if len(v.parts) == 1 and not isinstance(v.parts[0], str):
            n = z3.Function("named", z3.StringSort(), self.NAME)(v.expr())
        for f, pre in ((self.is_cache, "cache."), (self.is_temp, "new-")):
            first = v.parts[0] if v.parts else ""
            if isinstance(first, str) and (len(first) >= len(pre) or not pre.startswith(first) or len(v.parts) == 1):
                self.ctx.assume(f(n) == z3.BoolVal(first.startswith(pre)))
            elif len(v.parts) == 1:
                self.ctx.assume(f(n) == z3.PrefixOf(z3.StringVal(pre), first))
        self.ctx.assume(z3.Not(z3.And(self.is_cache(n), self.is_temp(n))))
        return n

    def path(self, name):
        return self.P.inside(name)

    def path_of(self, v):
        from pyvc.core import SStr
        parts = v.parts if isinstance(v, SStr) else (v,)
        if isinstance(parts[0], str) and parts[0].startswith(DIR + "/"):
            return self.P.inside(self.name(SStr((parts[0][len(DIR) + 1:],) + tuple(parts[1:]))))
        return self.P.outside(self.name(v))

    def complete0(self, name):
        import z3
        return self.complete(self.disk0, name)

    def complete(self, disk, name):
        """a file with a name of the cache holds all of its content"""
        import z3
        f = z3.Select(disk, self.path(name))
        return z3.Implies(z3.And(self.is_cache(name), self.F.is_some(f)),
                          self.F.content(f) == self.own(name))

    def set_disk(self, e):
        import z3
        self.ctx.note_write(self, "now")
        old = self.now.e
        self.now = Arr(e)
        if self.ctx.loop_stack:
            return
        self.ctx.prove("at no time an incomplete file has a name of the cache", self.complete(e, self.x))
        self.ctx.prove("other files stay as they are", z3.Implies(z3.Not(z3.And(
            self.P.is_inside(self.y), z3.Or(self.is_cache(self.P.name(self.y)), self.is_temp(self.P.name(self.y))))),
            z3.Select(e, self.y) == z3.Select(old, self.y)))

    def move(self, a, b):
        import z3
        from pyvc.core import to_z3
        from pyvc.values import mark
        a, b = self.path_of(a), self.path_of(b)
        f = z3.Select(self.now.e, a)
        if not self.ctx.branch(self.F.is_some(f)):
            raise mark(FileNotFoundError("no such file"))
        e = z3.Store(z3.Store(self.now.e, a, self.F.none), b, f)
        self.set_disk(e)

    def remove(self, a):
        import z3
        from pyvc.core import to_z3
        from pyvc.values import mark
        a = self.path_of(a)
        if not self.ctx.branch(self.F.is_some(z3.Select(self.now.e, a))):
            raise mark(FileNotFoundError("no such file"))
        self.set_disk(z3.Store(self.now.e, a, self.F.none))

    def write(self, path, content):
        import z3
        from pyvc.core import to_z3
        self.set_disk(z3.Store(self.now.e, self.path_of(path), self.F.some(content)))

    def partial(self):
        return self.ctx.fresh("incomplete", self.CT)

    def cache(self, version="1"):
        """a cache after any history: a set of complete files is known, some names were requested"""
        import z3
        from elsie.utils.cache import FsCache
        from pyvc.core import Unsupported
        n = len(self.sets)
        c = self.I.call(FsCache, (DIR, version))
        made = self.sets[n:]
        if len(made) != 2 or sum(s.origin is not None for s in made) != 1:
            raise Unsupported("storage of the cache")
        self.known = next(s for s in made if s.origin is not None)
        self.touched = next(s for s in made if s.origin is None)
        self.ctx.register(c, "cache")
        return c

    def any_history(self):
        """the sets are those of any earlier moment"""
        import z3
        self.known0 = z3.Const("known", self.SET)
        self.touched0 = z3.Const("touched", self.SET)
        self.known.now, self.touched.now = Arr(self.known0), Arr(self.touched0)
        self.known.facts = lambda e: self.ctx.assume(self.inv0(e))
        self.ctx.assume(self.inv0(self.x))

    def inv0(self, e):
        """known files exist, have names of the cache, and are complete"""
        import z3
        f = z3.Select(self.disk0, self.path(e))
        return z3.And(z3.Implies(z3.Select(self.known0, e), z3.And(self.is_cache(e), self.F.is_some(f))),
                      self.complete0(e))

    def check_inv(self):
        import z3
        f = z3.Select(self.now.e, self.path(self.x))
        self.ctx.prove("a known file is there and complete", z3.Implies(z3.Select(self.known.now.e, self.x), z3.And(
            self.F.is_some(f), self.F.content(f) == self.own(self.x))))
        self.ctx.prove("known names are names of the cache", z3.Implies(
            z3.Select(self.known.now.e, self.x), self.is_cache(self.x)))

    def elements(self, s):
        """the elements of a set, in some order, each once"""
        import z3
        from pyvc.core import mk, to_z3
        from pyvc.values import Base, VSeq
        ctx, S, Z = self.ctx, z3.StringSort(), z3.IntSort()
        i = len(self.sets)
        self.sets.append(s)
        n = ctx.int("elements")
        d = s.now.e
        el, place = z3.Function("element%d" % i, Z, S), z3.Function("place%d" % i, self.NAME, Z)
        b = Base(n, "elements%d" % i)
        nm = lambda k: z3.Function("named", S, self.NAME)(el(k))
        disk, known = self.now.e, self.known.now.e
        b.fold("files", self.DISK, disk, lambda k, G: z3.Store(G("files").e if hasattr(G("files"), "e") else G("files"),
                                                              self.P.inside(nm(k)), self.F.none))
        b.fold("known", self.SET, known, lambda k, G: z3.Store(G("known").e if hasattr(G("known"), "e") else G("known"),
                                                              nm(k), z3.BoolVal(False)))
        files, names = b.folds["files"][0], b.folds["known"][0]

        def about(x, p, at):
            """what was removed before the place k"""
            def gone(k, x):
                return z3.And(z3.Select(d, x), place(x) < k)

            def P(k):
                each(k - 1)
                each(k)
                return z3.And(z3.Select(names(k), x) == z3.And(z3.Select(known, x), z3.Not(gone(k, x))),
                              z3.Select(files(k), p) == z3.If(z3.And(self.P.is_inside(p), gone(k, self.P.name(p))),
                                                              self.F.none, z3.Select(disk, p)))
            ctx.assume(z3.Implies(z3.Select(d, x), z3.And(place(x) >= 0, place(x) < n.e, nm(place(x)) == x)))
            q = self.P.name(p)
            ctx.assume(z3.Implies(z3.And(self.P.is_inside(p), z3.Select(d, q)),
                                  z3.And(place(q) >= 0, place(q) < n.e, nm(place(q)) == q)))
            b.induct("what was removed before a place", P, at=at)

        def each(k):
            self.name(mk(el(k)))
            ctx.assume(z3.Implies(z3.And(k >= 0, k < n.e), z3.And(z3.Select(d, nm(k)), place(nm(k)) == k)))

        def elem(k):
            each(k)
            ctx.assume(self.inv0(nm(k)))
            about(nm(k), self.P.inside(nm(k)), (k,))
            return mk(el(k))
        self.after = lambda x, p: about(x, p, (b.n if z3.is_expr(b.n) else to_z3(b.n),))
        return VSeq(b, elem)

    def name_used(self, e):
        """the name the request stands for (one per request)"""
        if self.named is None:
            self.named = e
            if self.request is not None:
                self.ctx.assume(self.own(e) == self.request)
            self.ctx.assume(self.complete0(e))
            if hasattr(self, "known0"):
                self.ctx.assume(self.inv0(e))
        else:
            self.ctx.prove("one name for one request", e == self.named)


class Arr:
    _pyvc_stub = True

    def __init__(self, e):
        self.e = e


def read_bytes(b):
    import z3
    from pyvc.core import Unsupported
    if isinstance(b, Bytes):
        return b.e
    if isinstance(b, bytes):
        return z3.StringVal(b.decode("latin-1"))
    raise Unsupported("bytes")


class Bytes:
    """bytes, as the text of their characters"""
    _pyvc_stub = True

    def __init__(self, e):
        self.e = e

    def _pyvc_isinstance(self, t):
        return bytes in (t if isinstance(t, tuple) else (t,))

    def decode(self, *a):
        from pyvc.core import mk
        return mk(self.e)


class Hash:
    """a hash object: the digest of different inputs differs (assumed), and has a fixed length"""
    _pyvc_stub = True

    def __init__(self, w, alg, size, e):
        self.w, self.alg, self.size, self.e = w, alg, size, e

    def copy(self):
        return Hash(self.w, self.alg, self.size, self.e)

    def update(self, b):
        import z3
        self.e = z3.simplify(z3.Concat(self.e, read_bytes(b)))

    def value(self, form, size):
        import z3
        S = z3.StringSort()
        f, g = z3.Function(form + "_" + self.alg, S, S), z3.Function(form + "_" + self.alg + "_of", S, S)
        r = f(self.e)
        if self.w.hash_facts:
            self.w.ctx.assume(z3.And(z3.Length(r) == size, g(r) == self.e))
        self.w.hashed = getattr(self.w, "hashed", []) + [r]
        return r

    def digest(self):
        return Bytes(self.value("digest", self.size))

    def hexdigest(self):
        from pyvc.core import mk
        return mk(self.value("hex", 2 * self.size))


class Lock:
    _pyvc_stub = True

    def __init__(self, w):
        self.w, self.held, self.epoch = w, False, 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False

    def acquire(self, *a):
        self.w.ctx.prove("a lock is not taken twice", not self.held)
        self.held = True
        self.epoch += 1
        return True

    def release(self):
        self.w.ctx.prove("only a lock that is held is released", self.held)
        self.held = False


class Cond:
    _pyvc_stub = True

    def __init__(self, w):
        self.w = w

    def wait(self, *a):
        self.w.ctx.prove("a request does not wait for one that is over", False)

    wait_for = wait

    def notify_all(self):
        pass

    notify = notify_all

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Table:
    """a dictionary by names; empty between requests"""
    _pyvc_map = _pyvc_stub = True

    def __init__(self, w):
        self.w, self.entries, self.looked = w, [], None

    def find(self, k):
        from pyvc.core import to_z3
        k = to_z3(k)
        for i, (e, v) in enumerate(self.entries):
            if self.w.ctx.branch(e == k):
                return i
        return None

    def get(self, k, default=None):
        i = self.look(k)
        return default if i is None else self.entries[i][1]

    def look(self, k):
        """other threads may change the table whenever the lock is free"""
        lock = self.w.lock
        self.looked = lock.epoch if lock is not None and lock.held else None
        return self.find(k)

    def _pyvc_contains(self, k):
        return self.look(k) is not None

    def _pyvc_getitem(self, k):
        from pyvc.values import mark
        i = self.find(k)
        if i is None:
            raise mark(KeyError("missing"))
        return self.entries[i][1]

    def _pyvc_setitem(self, k, v):
        from pyvc.core import Unsupported, to_z3
        if self.w.ctx.loop_stack:
            raise Unsupported("table written in a loop")
        i = self.find(k)
        lock = self.w.lock
        if lock is not None:
            self.w.ctx.prove("a file in progress is registered under the lock that found nobody making it",
                             lock.held and self.looked == lock.epoch)
        if i is None:
            self.entries.append((to_z3(k), v))
        else:
            self.entries[i] = (self.entries[i][0], v)

    def _pyvc_delitem(self, k):
        from pyvc.values import mark
        i = self.find(k)
        if i is None:
            raise mark(KeyError("missing"))
        del self.entries[i]

    def pop(self, k, *d):
        i = self.find(k)
        if i is None:
            if d:
                return d[0]
            from pyvc.values import mark
            raise mark(KeyError("missing"))
        return self.entries.pop(i)[1]


class Set:
    """a set of file names"""
    _pyvc_stub = True

    def __init__(self, w, it=(), now=None):
        import z3
        from pyvc.core import Unsupported
        from pyvc.values import VSeq
        self.w, self.origin, self.facts = w, None, lambda e: None
        if now is not None:
            self.now = now
        elif isinstance(it, VSeq):
            if it.base is not w.listing or it.lo is None:
                raise Unsupported("set of other things")
            self.origin = it
            self.now = Arr(z3.Const("listed%d" % len(w.sets), w.SET))
        elif isinstance(it, Set):
            self.now = it.now
        elif not list(it):
            self.now = Arr(z3.K(w.NAME, z3.BoolVal(False)))
        else:
            raise Unsupported("set of given things")
        w.sets.append(self)
        w.ctx.register(self, "set")

    def put(self, e):
        self.w.ctx.note_write(self, "now")
        self.now = Arr(e)

    def add(self, x):
        import z3
        from pyvc.core import to_z3
        e = self.w.name(x)
        if not self.w.ctx.loop_stack:
            self.w.name_used(e)
        self.put(z3.Store(self.now.e, e, z3.BoolVal(True)))

    def discard(self, x):
        import z3
        from pyvc.core import to_z3
        self.put(z3.Store(self.now.e, self.w.name(x), z3.BoolVal(False)))

    def remove(self, x):
        import z3
        from pyvc.core import to_z3
        from pyvc.values import mark
        if not self.w.ctx.branch(z3.Select(self.now.e, self.w.name(x))):
            raise mark(KeyError("not in the set"))
        self.discard(x)

    def _pyvc_contains(self, x):
        import z3
        from pyvc.core import mk, to_z3
        e = self.w.name(x)
        if not self.w.ctx.loop_stack:
            self.w.name_used(e)
        self.facts(e)
        return mk(z3.Select(self.now.e, e))

    def difference(self, *others):
        import z3
        k = z3.Const("k!d", self.w.NAME)
        e = self.now.e
        for o in others:
            e = z3.Lambda([k], z3.And(z3.Select(e, k), z3.Not(z3.Select(o.now.e, k))))
        return Set(self.w, now=Arr(e))

    def _pyvc_sub(self, o):
        return self.difference(o)

    def intersection_update(self, o):
        import z3
        k = z3.Const("k!i", self.w.NAME)
        self.put(z3.Lambda([k], z3.And(z3.Select(self.now.e, k), z3.Select(o.now.e, k))))

    def difference_update(self, o):
        import z3
        k = z3.Const("k!i", self.w.NAME)
        self.put(z3.Lambda([k], z3.And(z3.Select(self.now.e, k), z3.Not(z3.Select(o.now.e, k)))))

    def copy(self):
        return Set(self.w, now=self.now)

    def _pyvc_iter(self):
        """the elements in some order, each once"""
        return self.w.elements(self)


class Open:
    """a file being read or written"""
    _pyvc_stub = True

    def __init__(self, w, path, mode, kw):
        import z3
        from pyvc.core import to_z3
        from pyvc.values import mark
        self.w, self.path, self.mode, self.kw, self.text = w, path, mode, kw, None
        if "w" in mode:
            w.write(path, w.partial())
            self.text = []
        elif not w.ctx.branch(w.F.is_some(z3.Select(w.now.e, w.path_of(path)))):
            raise mark(FileNotFoundError("no such file"))

    def __enter__(self):
        return self

    def write(self, s):
        from pyvc.core import to_z3
        self.text.append(s)
        self.w.write(self.path, self.w.partial())

    def flush(self):
        pass

    def fileno(self):
        return self

    def close(self):
        import z3
        from pyvc.core import SStr, to_z3
        if self.text is not None:
            t = SStr(tuple(self.text))
            self.text = None
            c = self.w.texts(to_z3(t))
            self.w.ctx.assume(self.w.text_in(c) == to_z3(t))
            self.w.write(self.path, c)

    def __exit__(self, *a):
        self.close()
        return False

    def read(self):
        import z3
        from pyvc.core import mk, to_z3
        w = self.w
        c = w.F.content(z3.Select(w.now.e, w.path_of(self.path)))
        if "b" in self.mode:
            return Bytes(w.bytes_in(c))
        if self.kw.get("newline") not in ("", "\n"):
            # line ends are changed
            return mk(z3.Function("universal_newlines", z3.StringSort(), z3.StringSort())(w.text_in(c)))
        return mk(w.text_in(c))


def input_of(ctx, w):
    """an input: text or bytes, the same input if they have the same content"""
    from pyvc.core import to_z3
    s = ctx.str("input")
    return (s, Bytes(to_z3(s)))[ctx.choose(2, "input")], to_z3(s)


class Failed(Exception):
    pass


def producer(w, calls, given, typ, fails):
    from pyvc.core import to_z3
    from pyvc.values import mark
    ctx = w.ctx

    def make(inp, target, t):
        calls.append(1)
        ctx.prove("the producer gets the input", inp is given or isinstance(inp, Bytes) and ctx.valid(
            inp.e == (given.e if isinstance(given, Bytes) else to_z3(given))))
        ctx.prove("the producer gets the data type", to_z3(t) == to_z3(typ))
        if fails == 1:
            raise mark(Failed())
        w.write(target, w.partial())
        if fails == 2:
            raise mark(Failed())
        content = w.made(to_z3(given) if not isinstance(given, Bytes) else given.e, to_z3(typ))
        w.write(target, content)
    make.__module__ = "props.C01"
    return make


@unit("a request returns the complete file of its input, made at most once, whenever it fails or the process dies",
      functions=["FsCache.__init__", "FsCache.ensure", "FsCache._get_filename", "FsCache._full_path", "FsCache._temp_path"])
def u_ensure(ctx):
    import z3
    from pyvc.core import to_z3
    w = World(ctx)
    c = w.cache()
    w.any_history()
    given, inp = input_of(ctx, w)
    typ = ctx.str("data_type")
    w.request = w.made(inp, to_z3(typ))
    fails = ctx.choose(3, "the producer fails")
    calls = []
    by_file = not isinstance(given, Bytes) and bool(ctx.choose(2, "by file"))
    q = z3.Select

    def request(how):
        if by_file:
            return w.I.call(c.ensure_by_file, (src, typ, producer(w, calls, Bytes(inp), typ, how)))
        return w.I.call(c.ensure, (given, typ, producer(w, calls, given, typ, how)))
    if by_file:
        src = ctx.str("source")
        f = q(w.disk0, w.path_of(src))
        ctx.assume(z3.And(w.F.is_some(f), w.bytes_in(w.F.content(f)) == inp))
    p = None
    try:
        p = request(fails)
    except Failed:
        ctx.reach("failed")
        ctx.prove("only a producer that failed is an error", bool(fails) and len(calls) == 1)
    e = w.named
    ctx.prove("the name is remembered", e is not None)
    if e is None:
        return
    had = q(w.known0, e)
    if p is None:
        ctx.prove("a producer runs only if the file is not there", z3.Not(had))
        w.check_inv()
        # a later request of the same input, which does not fail
        calls.clear()
        p = request(0)
        ctx.prove("a later request makes the file", len(calls) == 1)
    else:
        ctx.reach("made" if calls else "found")
        ctx.prove("the error of the producer reaches the caller", not (fails and calls))
        ctx.prove("made at most once", len(calls) <= 1)
        ctx.prove("made only if the file is not there", z3.BoolVal(not calls) == had)
    w.check_inv()
    f = q(w.now.e, w.path_of(p))
    ctx.prove("the returned file is there", w.F.is_some(f))
    ctx.prove("the returned file holds what was made for the input", w.F.content(f) == w.request)
    ctx.prove("the request is remembered", q(w.touched.now.e, e))
    ctx.prove("a made file is known", q(w.known.now.e, e))
    ctx.prove("the path of the name", w.path_of(p) == w.path(e))
    ctx.prove("what was known or requested stays so", z3.And(
        z3.Implies(q(w.known0, w.x), q(w.known.now.e, w.x)),
        z3.Implies(q(w.touched0, w.x), q(w.touched.now.e, w.x))))
    ctx.prove("nothing else is requested", z3.Implies(z3.And(w.x != e, q(w.touched.now.e, w.x)), q(w.touched0, w.x)))
    n = len(calls)
    p2 = request(1)
    ctx.prove("an existing file is not made again", len(calls) == n)
    ctx.prove("the same file again", w.path_of(p2) == w.path_of(p))


@unit("text results: the text made for exactly the input, read back as it was, made at most once",
      functions=["FsCache.get", "FsCache._get_filename", "FsCache._temp_path"])
def u_get(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.values import mark
    w = World(ctx)
    c = w.cache()
    w.any_history()
    given, inp = input_of(ctx, w)
    typ = ctx.str("data_type")
    text = ctx.str("result")
    w.request = w.texts(to_z3(text))
    ctx.assume(w.text_in(w.request) == to_z3(text))
    calls = []
    fails = ctx.choose(2, "the producer fails")

    def make(i):
        calls.append(1)
        ctx.prove("the producer gets the input", i is given)
        if fails:
            raise mark(Failed())
        return text
    make.__module__ = "props.C01"
    r = None
    try:
        r = w.I.call(c.get, (given, typ, make))
    except Failed:
        ctx.reach("failed")
    e = w.named
    ctx.prove("the name is remembered", e is not None)
    if e is None:
        return
    had = z3.Select(w.known0, e)
    if r is None:
        ctx.prove("a producer runs only if the text is not there", z3.Not(had))
        w.check_inv()
        fails = 0
        r = w.I.call(c.get, (given, typ, make))
    else:
        ctx.reach("made" if calls else "found")
        ctx.prove("the error of the producer reaches the caller", not (fails and calls))
        ctx.prove("made only if the text is not there", z3.BoolVal(not calls) == had)
    w.check_inv()
    ctx.prove("the text made for the input", to_z3(r) == to_z3(text))
    ctx.prove("the request is remembered", z3.Select(w.touched.now.e, e))
    ctx.prove("a made text is known", z3.Select(w.known.now.e, e))
    n = len(calls)
    r = w.I.call(c.get, (given, typ, make))
    ctx.prove("an existing text is not made again", len(calls) == n)
    ctx.prove("the same text again", to_z3(r) == to_z3(text))
    ctx.prove("what was known or requested stays so", z3.And(
        z3.Implies(z3.Select(w.known0, w.x), z3.Select(w.known.now.e, w.x)),
        z3.Implies(z3.Select(w.touched0, w.x), z3.Select(w.touched.now.e, w.x))))


@unit("pruning removes exactly the files that were not requested", functions=["FsCache.remove_unused"])
def u_prune(ctx):
    import z3
    w = World(ctx)
    c = w.cache()
    w.any_history()
    w.request = None
    w.I.call(c.remove_unused)
    q = z3.Select
    after = getattr(w, "after", None)
    if after is not None:
        after(w.x, w.y)
        after(w.x, w.P.inside(w.x))
    x, n = w.x, w.P.name(w.y)
    ctx.assume(w.inv0(n))
    ctx.reach("pruned")
    ctx.prove("exactly the requested files stay known", q(w.known.now.e, x) == z3.And(q(w.known0, x), q(w.touched0, x)))
    unused = z3.And(w.P.is_inside(w.y), q(w.known0, n), z3.Not(q(w.touched0, n)))
    ctx.prove("unused files are removed", z3.Implies(unused, w.F.is_none(q(w.now.e, w.y))))
    ctx.prove("all other files stay as they are", z3.Implies(z3.Not(unused), q(w.now.e, w.y) == q(w.disk0, w.y)))
    ctx.prove("requests stay remembered", q(w.touched.now.e, x) == q(w.touched0, x))
    w.check_inv()


@unit("a new cache knows exactly the files with names of the cache", functions=["FsCache.__init__"])
def u_init(ctx):
    import z3
    from pyvc.core import to_z3
    w = World(ctx)
    w.cache(ctx.str("version"))
    seq = w.known.origin
    k = ctx.fresh("any_file", z3.IntSort())
    ctx.assume(z3.And(k >= seq.lo, k < seq.hi))
    seq.inst(k)
    name = seq.at(k)
    ctx.reach("made")
    ctx.prove("the names of the files are known", to_z3(name) == w.name_at(k))
    w.name(name)
    named = w.is_cache(w.name(name))
    has = True if seq.guard is None else bool(w.I.truth(seq.guard(k)))
    ctx.prove("a file is known exactly if it has a name of the cache", z3.BoolVal(has) == named)
    ctx.prove("all files are looked at", z3.And(to_z3(seq.lo) == 0, seq.hi == to_z3(w.n)))
    ctx.prove("nothing is requested yet", z3.Not(z3.Select(w.touched.now.e, w.x)))
    ctx.prove("no file changes", w.now.e == w.disk0)


@unit("different inputs, data types and versions have different files, equal ones the same file", timeout_ms=20000,
      functions=["FsCache.__init__", "FsCache._get_filename", "FsCache.ensure"])
def u_names(ctx):
    import z3
    from pyvc.core import to_z3
    w = World(ctx)
    w.hash_facts = True
    vs = [ctx.str("version"), ctx.str("version2")]
    ds = [ctx.str("input"), ctx.str("input2")]
    ts = [ctx.str("type"), ctx.str("type2")]
    paths = []
    for v, d, t in zip(vs, ds, ts):
        w.named = w.request = None
        c = w.cache(v)

        def make(inp, target, typ):
            w.write(target, w.partial())
        make.__module__ = "props.C01"
        w.set_disk = lambda e: setattr(w, "now", Arr(e))
        x = Bytes(to_z3(d)) if ctx.choose(2, "input") else d
        paths.append(to_z3(w.I.call(c.ensure, (x, t, make))))
    ctx.reach("named")
    same = z3.And(*[to_z3(a) == to_z3(b) for a, b in (vs, ds, ts)])
    ctx.prove("different requests have different files", z3.Implies(paths[0] == paths[1], same))
    ctx.prove("equal requests have the same file", z3.Implies(same, paths[0] == paths[1]))
    ctx.prove("a file is in the cache directory and has a name of the cache and the extension of its type",
              z3.And(z3.PrefixOf(z3.StringVal(DIR + "/cache."), paths[0]),
                     z3.SuffixOf(z3.Concat(z3.StringVal("."), to_z3(ts[0])), paths[0])))
