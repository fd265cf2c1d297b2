"""N01 concurrent requests to the file cache."""
import os

from pyvc.api import bounded, unit
from pyvc import decks
from props.C01 import Arr, Bytes, Cond, Failed, Lock, Set, Table, World, input_of


# ------------------------------------------------------------------ bounded
class Schedule:
    """Threads that run one line of the cache at a time, in an order given by a random generator. A thread that does
    not come back soon (it waits for a lock) keeps running, the next one goes on meanwhile."""

    def __init__(self, rng, mod):
        import threading
        self.rng, self.file = rng, mod.__file__
        self.turn, self.local, self.pause = {}, threading.local(), lambda: None
        self.back = threading.Semaphore(0)
        self.order = []

    def run(self, jobs, limit):
        import sys
        import threading
        import time
        alive, waiting = set(), set()
        mutex = threading.Lock()

        def start(i, job):
            def trace(frame, event, arg):
                if frame.f_code.co_filename != self.file:
                    return None
                if event == "line":
                    stop(i)
                return trace

            def body():
                self.local.i = i
                sys.settrace(trace)
                try:
                    stop(i)
                    job()
                finally:
                    sys.settrace(None)
                    with mutex:
                        alive.discard(i)
                        waiting.discard(i)
                    self.back.release()
            t = threading.Thread(target=body, daemon=True)
            self.turn[i] = threading.Semaphore(0)
            alive.add(i)
            t.start()
            return t

        def stop(i):
            with mutex:
                waiting.add(i)
            self.back.release()
            self.turn[i].acquire()
        self.pause = lambda: stop(self.local.i)
        threads = [start(i, j) for i, j in enumerate(jobs)]
        end = time.time() + limit
        while alive and time.time() < end:
            with mutex:
                ready = sorted(waiting)
            if not ready:
                self.back.acquire(timeout=0.02)
                continue
            i = self.rng.choice(ready)
            self.order.append(i)
            with mutex:
                waiting.discard(i)
            while self.back.acquire(blocking=False):
                pass
            self.turn[i].release()
            self.back.acquire(timeout=0.004)
        ok = not alive
        for s in self.turn.values():
            for _ in range(10000 if not ok else 1):
                s.release()
        for t in threads:
            t.join(0.5)
        return ok


@bounded("schedules", "2-4 threads with 1-2 requests each of 1-2 different inputs, switched at random lines of the cache: "
                      "productions, returned files, directory, and that all requests end")
def schedules(B):
    import elsie.utils.cache as mod
    rng = B.rng
    for it in range(B.n(150, 1500)):
        d = decks.fresh_dir()
        c = mod.FsCache(d, "1")
        inputs = ["a", "b"][:rng.choice([1, 2])]
        typ = "pdf"
        made, got, bad = [], [], []

        def producer(inp, target, t):
            made.append(inp)
            with open(target, "wb") as f:
                f.write(b"half")
                f.flush()
                s.pause()
                f.write(b" " + inp.encode())

        def job(todo):
            def run():
                for i in todo:
                    try:
                        p = c.ensure(i, typ, producer)
                        with open(p, "rb") as f:
                            got.append((i, p, f.read()))
                    except BaseException as e:
                        bad.append(repr(e))
            return run
        todo = [[rng.choice(inputs) for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(2, 4))]
        B.case(todo)
        s = Schedule(rng, mod)
        ended = s.run([job(t) for t in todo], 20)
        asked = sorted({i for t in todo for i in t})
        B.check(ended, "a request does not end", order=s.order)
        B.check(not bad, "a request fails: %s" % bad, order=s.order)
        B.eq(sorted(made), asked, "number of productions", order=s.order)
        for i, p, data in got:
            B.eq(data, b"half " + i.encode(), "a returned file is not complete", order=s.order)
        B.eq(len(set(p for i, p, _ in got)), len(asked), "files of different inputs", order=s.order)
        B.eq(sorted(os.listdir(d)), sorted({os.path.basename(p) for i, p, _ in got}), "files in the directory",
             order=s.order)


@bounded("failing", "2-3 threads request the same file, the producers fail at random: every request ends, errors reach "
                    "the caller, a later request gets the file")
def failing(B):
    import elsie.utils.cache as mod
    rng = B.rng
    for it in range(B.n(20, 200)):
        d = decks.fresh_dir()
        c = mod.FsCache(d, "1")
        got, bad, failures = [], [], []

        class Boom(Exception):
            pass

        def producer(inp, target, t):
            with open(target, "wb") as f:
                f.write(b"half")
                if rng.random() < 0.6:
                    failures.append(1)
                    raise Boom()
                f.write(b" full")

        def job():
            try:
                with open(c.ensure("a", "pdf", producer), "rb") as f:
                    got.append(f.read())
            except BaseException as e:
                bad.append(e)
        n = rng.randint(2, 3)
        B.case((it, n))
        s = Schedule(rng, mod)
        ended = s.run([job] * n, 20)
        B.check(ended, "a request does not end", order=s.order)
        B.eq(sum(isinstance(e, Boom) for e in bad), len(failures), "errors that reach the caller", order=s.order)
        for data in got:
            B.eq(data, b"half full", "a returned file is not complete", order=s.order)
        if not failures:
            B.eq(len(bad), 0, "requests fail though no producer does", order=s.order)

        def good(inp, target, t):
            with open(target, "wb") as f:
                f.write(b"half full")
        ended = Schedule(rng, mod).run([lambda: got.append(c.ensure("a", "pdf", good))], 20)
        B.check(ended, "a later request does not end", order=s.order)
        with open(got[-1], "rb") as f:
            B.eq(f.read(), b"half full", "a later request", order=s.order)


# ------------------------------------------------------------------ proof: rely and guarantee
class TWorld(World):
    """One request among any number of other threads that request files of the same cache.

    Guarantee (obligations on every step of the request): the table of files in progress gets an entry for the name only
    while the lock is held, nobody else has one, and the file is not known; only the owner of the entry makes the file,
    touches its temporary or final file, and adds it to the known ones, once it is complete; a file that was made is
    known when its entry goes; everybody who may have started to wait is notified, not before that.
    Rely (what other threads may have done whenever the lock is free): any steps with that guarantee.
    So at most one thread owns a name at any time, whoever owns it found it unknown, and knows it in the end."""

    def __init__(self, ctx):
        import threading
        import z3
        super().__init__(ctx)
        w, I = self, self.I
        self.taken = z3.BoolVal(False)   # another thread makes the file
        self.mine, self.my_value = False, None
        self.pending = self.notified = self.removed = self.failed = self.other_failed = False
        self.calls = 0
        self.active = False
        self.written = []
        self.lock = None
        ctx.set_model = lambda it: TSet(w, it)
        ctx.dict_model = lambda: TTable(w)

        def lock(again):
            if self.lock is not None:
                from pyvc.core import Unsupported
                raise Unsupported("several locks")
            self.lock = TLock(w, again)
            return self.lock

        def cond(I_, l=None):
            if l is None or l is not w.lock:
                from pyvc.core import Unsupported
                raise Unsupported("condition of another lock")
            return TCond(w, True)
        I.models[threading.Lock] = lambda I_: lock(False)
        I.models[threading.RLock] = lambda I_: lock(True)
        I.models[threading.Condition] = cond

    def is_known(self):
        import z3
        return z3.Select(self.known.now.e, self.named)

    def complete_now(self):
        import z3
        f = z3.Select(self.now.e, self.path(self.named))
        return z3.And(self.F.is_some(f), self.F.content(f) == self.own(self.named))

    def interfere(self, free=None):
        """other threads"""
        import z3
        from pyvc.core import Unsupported
        ctx, e = self.ctx, self.named
        if not self.active or e is None:
            return
        if ctx.loop_stack:
            raise Unsupported("shared state in a loop")
        if free is None:
            free = self.lock is None or not self.lock.held
        q = z3.Select
        old_k, old_t, old_d = self.known.now.e, self.touched.now.e, self.now.e
        k, t, d = ctx.fresh("known", self.SET), ctx.fresh("touched", self.SET), ctx.fresh("files", self.DISK)
        p = self.path(e)
        for x in (e, self.x):
            ctx.assume(z3.And(z3.Implies(q(old_t, x), q(t, x)), z3.Implies(q(old_k, x), q(k, x))))
        f = q(d, p)
        ctx.assume(z3.Implies(q(k, e), z3.And(self.F.is_some(f), self.F.content(f) == self.own(e))))
        ctx.assume(z3.Implies(q(old_k, e), q(d, p) == q(old_d, p)))
        ctx.assume(self.complete(d, e))
        if self.mine:
            ctx.assume(q(k, e) == q(old_k, e))
            for r in [p] + self.written:
                ctx.assume(q(d, r) == q(old_d, r))
        elif free:
            self.taken = ctx.fresh("taken", z3.BoolSort())
        else:
            # only the owner changes anything
            ctx.assume(z3.Implies(z3.Not(self.taken), z3.And(q(k, e) == q(old_k, e), q(d, p) == q(old_d, p))))
        self.known.now, self.touched.now, self.now = Arr(k), Arr(t), Arr(d)

    def name_used(self, e):
        first = self.named is None
        super().name_used(e)
        if first and self.active:
            self.taken = self.ctx.fresh("taken", self.taken.sort())     # at any moment

    def set_disk(self, new):
        import z3
        from pyvc.core import Unsupported
        self.ctx.note_write(self, "now")
        if self.ctx.loop_stack:
            raise Unsupported("files in a loop")
        old, self.now = self.now.e, Arr(new)
        if self.active:
            self.ctx.prove("only the thread that makes a file touches its files", z3.Or(
                z3.BoolVal(self.mine), new == old))
            self.ctx.prove("at no time an incomplete file has the name of the cache", self.complete(new, self.named))

    def move(self, a, b):
        self.interfere()
        self.note_path(a)
        self.note_path(b)
        super().move(a, b)

    def remove(self, a):
        self.interfere()
        self.note_path(a)
        super().remove(a)

    def write(self, path, content):
        self.interfere()
        self.note_path(path)
        super().write(path, content)

    def note_path(self, a):
        p = self.path_of(a)
        if all(not p.eq(r) for r in self.written):
            self.written.append(p)

    def section_ends(self):
        """the lock becomes free, or the entry is removed without it"""
        import z3
        if self.notified:
            self.ctx.prove("waiting requests are notified only when the file is there, or making it failed",
                           z3.Or(self.is_known(), z3.BoolVal(self.failed)))
            self.notified = False
        if self.removed:
            self.ctx.prove("a file that was made is known when it is not in progress any more",
                           z3.Or(self.is_known(), z3.BoolVal(self.failed or not self.calls)))
            self.removed = False
        if self.mine:
            self.pending = True     # others can find the entry and wait


class TLock(Lock):
    def __init__(self, w, again):
        super().__init__(w)
        self.again, self.depth = again, 0

    def acquire(self, *a):
        if self.held and self.again:
            self.depth += 1
            return True
        self.w.ctx.prove("a lock is not taken twice", not self.held)
        self.w.interfere()
        self.held = True
        return True

    def release(self):
        self.w.ctx.prove("only a lock that is held is released", self.held)
        if self.depth:
            self.depth -= 1
            return
        self.w.section_ends()
        self.held = False


class TCond(Cond):
    def __init__(self, w, own):
        self.w, self.own = w, own

    def wait(self, *a, timeout=None):
        import z3
        from pyvc.core import Unsupported
        w = self.w
        if w.lock.depth:
            raise Unsupported("wait under nested locks")
        w.ctx.prove("a request waits while it holds the lock", w.lock.held)
        w.ctx.prove("a request waits only for another thread that is making the file",
                    z3.And(z3.BoolVal(not self.own), w.taken))
        w.section_ends()
        w.interfere(True)
        if (a or timeout is not None) and w.ctx.choose(2, "the time is over"):
            return False
        w.ctx.reach("waited")
        if w.ctx.choose(2, "the other producer fails"):
            w.other_failed = True
        else:
            w.ctx.assume(w.is_known())
        return True

    def wait_for(self, pred, timeout=None):
        w = self.w
        if not w.I.truth(w.I.call(pred, ())):
            r = self.wait(timeout) if timeout is not None else self.wait()
            if not r:
                return w.I.call(pred, ())
            v = w.I.call(pred, ())
            if not w.I.truth(v):
                w.ctx.prove("the request goes on when it is notified", False)
            return v
        return True

    def notify_all(self):
        w = self.w
        w.ctx.prove("notified while the lock is held", w.lock.held)
        if self.own:
            w.notified, w.pending = True, False

    def notify(self, n=1):
        self.w.ctx.prove("notified while the lock is held", self.w.lock.held)
        if self.own:
            self.w.notified = True      # others may go on waiting

    def __enter__(self):
        self.w.lock.acquire()
        return self

    def __exit__(self, *a):
        self.w.lock.release()
        return False

    def acquire(self, *a):
        return self.w.lock.acquire()

    def release(self):
        self.w.lock.release()


class TTable(Table):
    """the files in progress; of the name of the request only"""

    def name(self, k):
        self.w.name_used(self.w.name(k))

    def at(self, k):
        """the entry of the name now"""
        self.name(k)
        w = self.w
        if not w.mine and not w.lock.held:
            w.interfere()
        if w.mine:
            return w.my_value
        return TCond(w, False) if w.ctx.branch(w.taken) else None

    def get(self, k, default=None):
        v = self.at(k)
        return default if v is None else v

    def _pyvc_contains(self, k):
        return self.at(k) is not None

    def _pyvc_getitem(self, k):
        from pyvc.values import mark
        v = self.at(k)
        if v is None:
            raise mark(KeyError("missing"))
        return v

    def setdefault(self, k, v):
        got = self.at(k)
        if got is None:
            self.enter(v)
            got = v
        return got

    def _pyvc_setitem(self, k, v):
        self.name(k)
        if not self.w.lock.held:
            self.w.interfere()
        self.enter(v)

    def enter(self, v):
        import z3
        from pyvc.core import Unsupported
        w = self.w
        if w.ctx.loop_stack or not isinstance(v, TCond) or not v.own:
            raise Unsupported("entry of the table")
        w.ctx.prove("only one thread at a time makes a file",
                    z3.And(z3.BoolVal(w.lock.held or w.mine), z3.Not(w.taken)))
        w.ctx.prove("a file that is there is not made again", z3.Not(w.is_known()))
        w.ctx.assume(z3.Not(w.taken))
        w.mine, w.my_value = True, v
        w.taken = z3.BoolVal(False)

    def leave(self, k):
        from pyvc.values import mark
        w = self.w
        v = self.at(k)
        if v is None:
            raise mark(KeyError("missing"))
        if not w.mine:
            w.ctx.prove("only the thread that makes a file ends it", False)
            return v
        w.removed = True
        if not w.lock.held:
            w.mine = False
            w.section_ends()
        w.mine, w.my_value = False, None
        return v

    def _pyvc_delitem(self, k):
        self.leave(k)

    def pop(self, k, *d):
        if d and self.at(k) is None:
            return d[0]
        return self.leave(k)


class TSet(Set):
    def _pyvc_contains(self, x):
        import z3
        from pyvc.core import mk
        e = self.w.name(x)
        if not self.w.ctx.loop_stack:
            self.w.name_used(e)
        self.w.interfere()
        return mk(z3.Select(self.now.e, e))

    def add(self, x):
        self.w.name_used(self.w.name(x))
        self.w.interfere()
        super().add(x)

    def put(self, e):
        import z3
        w = self.w
        if w.active:
            old = self.now.e
            q = z3.Select
            w.ctx.prove("nothing known or requested is forgotten", z3.Implies(q(old, w.x), q(e, w.x)))
            if self is w.known:
                w.ctx.prove("a file becomes known when the thread that makes it has completed it", z3.Implies(
                    z3.And(q(e, w.x), z3.Not(q(old, w.x))),
                    z3.And(w.x == w.named, z3.BoolVal(w.mine), w.complete_now())))
        super().put(e)


@unit("among any number of threads a file is made once, by one thread, and every request gets it complete",
      functions=["FsCache.ensure", "FsCache.ensure_by_file", "FsCache._temp_path"])
def u_threads(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.values import mark
    w = TWorld(ctx)
    c = w.cache()
    w.any_history()
    given, inp = input_of(ctx, w)
    typ = ctx.str("data_type")
    w.request = w.made(inp, to_z3(typ))
    fails = ctx.choose(3, "the producer fails")
    how = ctx.choose(3, "how")
    w.active = True
    for label in ("waited", "made", "found", "failed"):
        ctx.reached.setdefault(label, False)

    def make(i, target, t):
        w.interfere()
        w.calls += 1
        ctx.prove("a file is made by the only thread that makes it", w.mine)
        ctx.prove("a known file is not made again", z3.Not(w.is_known()))
        ctx.prove("a request makes the file once", w.calls == 1)
        if fails == 1:
            w.failed = True
            raise mark(Failed())
        w.write(target, w.partial())
        if fails == 2:
            w.failed = True
            raise mark(Failed())
        w.write(target, w.request)
    make.__module__ = "props.N01"
    p = None
    if how == 2:
        if isinstance(given, Bytes):
            return
        src = ctx.str("source")
        f = z3.Select(w.disk0, w.path_of(src))
        ctx.assume(z3.And(w.F.is_some(f), w.bytes_in(w.F.content(f)) == inp))
    try:
        if how == 2:
            p = w.I.call(c.ensure_by_file, (src, typ, make))
        else:
            p = w.I.call(c.ensure, (given, typ, make), {"wait_on_collision": True} if how else {})
    except Failed:
        ctx.reach("failed")
        ctx.prove("only a producer that failed is an error", w.failed)
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("the other failed")
        ctx.prove("a request fails only if the file could not be made", w.other_failed)
        return
    ctx.prove("the lock is free afterwards", not w.lock.held)
    ctx.prove("the file is not in progress afterwards", not w.mine)
    ctx.prove("every request that may wait is notified", not w.pending)
    if p is None:
        return
    w.interfere()
    ctx.reach("made" if w.calls else "found")
    ctx.prove("the returned file is there and complete", w.complete_now())
    ctx.prove("the path of the name", w.path_of(p) == w.path(w.named))
    ctx.prove("the file stays known", w.is_known())
    ctx.prove("the request is remembered", z3.Select(w.touched.now.e, w.named))


@unit("files that are made at the same time have different temporary names", timeout_ms=20000,
      functions=["FsCache.ensure", "FsCache._temp_path", "FsCache._get_filename"])
def u_temp(ctx):
    import z3
    from pyvc.core import to_z3
    w = World(ctx)
    w.hash_facts = True
    c = w.cache()
    pid = ctx.int("pid")
    w.I.models[os.getpid] = lambda I_: pid
    targets, paths = [], []
    w.set_disk = lambda e: setattr(w, "now", Arr(e))
    for i in range(2):
        w.named = w.request = None

        def make(inp, target, typ):
            targets.append(to_z3(target))
            w.write(target, w.partial())
        make.__module__ = "props.N01"
        d = ctx.str("input%d" % i)
        x = Bytes(to_z3(d)) if ctx.choose(2, "input") else d
        paths.append(to_z3(w.I.call(c.ensure, (x, ctx.str("type%d" % i), make))))
        if len(targets) <= i:
            return      # found
    ctx.reach("named")
    ctx.prove("different files have different temporary names", z3.Implies(targets[0] == targets[1], paths[0] == paths[1]))
    for i in range(2):
        ctx.prove("no temporary name is the name of a file of the cache", targets[i] != paths[1 - i])
