"""C02 the cache of text measurements."""
import json
import os

from pyvc.api import bounded, unit
from pyvc import decks
import elsie

TEXTS = ["a", "abc", "two\nlines", "~emph{x} y", "z" * 9, ""]


def log_lines(f):
    return [l.strip() for l in open(f)] if os.path.exists(f) else []


class Shell:
    """Deck factory whose measurements are counted."""

    def __init__(self, B, version=None):
        from elsie.render.inkscape import InkscapeShell
        self.log = os.path.join(decks.fresh_dir(), "log")
        os.environ["FAKE_INKSCAPE_LOG"] = self.log
        if version:
            os.environ["FAKE_INKSCAPE_VERSION"] = version
        try:
            self.sh = InkscapeShell(decks.FAKE)
        finally:
            os.environ.pop("FAKE_INKSCAPE_LOG", None)
            os.environ.pop("FAKE_INKSCAPE_VERSION", None)

    def queries(self):
        return len([l for l in log_lines(self.log) if "query-" in l])

    def close(self):
        self.sh.process.kill()
        self.sh.process.wait()


def size(s, txt, sz):
    b = s.box(x=0, y=0)
    b.text(txt, elsie.TextStyle(size=sz))
    return b


def expected(txt, sz):
    plain = txt.replace("~emph{", "").replace("}", "")
    return max(len(l) for l in plain.split("\n")) * sz * decks.CHAR


@bounded("runs", "random sequences of runs over one cache directory: texts measured, with and without pruning and saving, "
                 "rendered 1-3 times, versions changed in between; every measured size, number of real measurements "
                 "and the saved keys")
def runs(B):
    rng = B.rng
    shells = {v: Shell(B, v) for v in (None, "1.9")}
    try:
        for _ in range(B.n(40, 500)):
            cache = decks.fresh_dir()
            saved, saved_ver = {}, None
            hist = []
            for run in range(rng.randint(1, 4)):
                v = rng.choice([None, None, None, "1.9"])
                sh = shells[v]
                d = decks.deck(cache_dir=cache, sh=sh.sh)
                have = dict(saved) if saved_ver == v else {}
                mem, used = dict(have), {}
                s = d.new_slide()
                boxes = []
                q0 = sh.queries()
                need = 0
                for _ in range(rng.randint(0, 5)):
                    t, z = rng.choice(TEXTS), rng.choice([10, 20])
                    if not t:
                        continue
                    boxes.append((size(s, t, z), t, z))
                    if (t, z) not in mem:
                        need += 1
                        mem[(t, z)] = 1
                    used[(t, z)] = 1
                hist.append((v, [(t, z) for _, t, z in boxes]))
                for r in range(rng.randint(1, 3)):
                    prune, save = rng.random() < 0.6, rng.random() < 0.8
                    hist.append((prune, save))
                    B.current = hist
                    decks.units(d, prune_cache=prune, save_cache=save)
                    if prune:
                        mem = {k: 1 for k in mem if k in used}
                    if save:
                        saved, saved_ver = dict(mem), v
                        B.check(os.path.isfile(os.path.join(cache, "queries3.cache")),
                                "the cache is not saved by rendering")
                        with open(os.path.join(cache, "queries3.cache")) as f:
                            n = len(json.load(f)["queries"])
                        B.check(n >= len(used), "a measurement of the deck was not saved", saved=n, used=len(used))
                        if prune:
                            B.eq(n, len(used), "saved measurements after pruning")
                    for b, t, z in boxes:
                        B.eq(b.x("100%").eval() - b.x(0).eval(), expected(t, z), "width of a text", text=t, size=z)
                    if rng.random() < 0.4:
                        t, z = rng.choice(TEXTS[:-1]), rng.choice([10, 20])
                        boxes.append((size(s, t, z), t, z))
                        hist.append((t, z))
                        if (t, z) not in mem:
                            need += 1
                            mem[(t, z)] = 1
                        used[(t, z)] = 1
                B.eq(sh.queries() - q0, need, "number of real measurements")
            B.case(hist)
    finally:
        for s in shells.values():
            s.close()


@bounded("values", "inline boxes, nested sections and styles measured with a warm and with a cold cache agree")
def values(B):
    rng = B.rng
    for _ in range(B.n(30, 400)):
        cache = decks.fresh_dir()
        t = rng.choice(["a ~emph{bc} d", "~tt{x}", "a\nb ~emph{c ~tt{dd}} e"])
        z = rng.choice([10, 28])
        al = rng.choice(["left", "middle", "right"])
        B.case((t, z, al))
        rects = []
        for run in range(3):
            d = decks.deck(cache_dir=cache)
            b = d.new_slide().box(x=10, y=10)
            it = b.text(t, elsie.TextStyle(size=z, align=al))
            ib = it.inline_box("emph" if "emph" in t else "tt")
            decks.units(d, save_cache=True, prune_cache=run == 1)
            rects.append((decks.frect(b), decks.frect(ib)))
        B.eq(rects[1], rects[0], "rectangles with a loaded cache")
        B.eq(rects[2], rects[0], "rectangles with a pruned cache")


@bounded("foreign", "saved caches of another version of the library or of the drawing program are ignored, all of them")
def foreign(B):
    for key, val in (("version", "0.0.1"), ("inkscape", "Inkscape 0.9"), ("version", None), ("inkscape", None)):
        B.case((key, val))
        cache = decks.fresh_dir()
        d = decks.deck(cache_dir=cache)
        size(d.new_slide(), "abc", 10)
        decks.units(d, save_cache=True)
        f = os.path.join(cache, "queries3.cache")
        B.check(os.path.isfile(f), "the cache is not saved by rendering")
        with open(f) as fh:
            c = json.load(fh)
        B.check(len(c["queries"]) == 1, "saved queries")
        c["queries"] = [[k, 777.0] for k, _ in c["queries"]]
        with open(f, "w") as fh:
            json.dump(c, fh)
        d = decks.deck(cache_dir=cache)
        b = size(d.new_slide(), "abc", 10)
        decks.units(d)
        B.eq(decks.frect(b)[2], 777.0, "a saved measurement of the same versions is used")
        c[key] = val
        if val is None:
            del c[key]
        with open(f, "w") as fh:
            json.dump(c, fh)
        d = decks.deck(cache_dir=cache)
        b = size(d.new_slide(), "abc", 10)
        decks.units(d)
        B.eq(decks.frect(b)[2], 15.0, "a measurement of another version was used")


# ------------------------------------------------------------------ proofs
class World:
    """The measurement cache: what is remembered, what of it was used for the deck, what was measured."""

    def __init__(self, ctx):
        import z3
        from pyvc.interp import Interp
        self.ctx, self.I = ctx, Interp(ctx)
        S, R = z3.StringSort(), z3.RealSort()
        Key = z3.Datatype("Query")
        Key.declare("query", ("method", S), ("drawing", S))
        self.KEY = Key.create()
        self.value = z3.Function("measured", S, S, R)      # what the program measures for a drawing
        self.keys = []
        # the major version of the program only decides about a warning
        ctx.str_hooks["split"] = lambda s, sep=None, *a: [("0", "1")[ctx.choose(2, "major version")], "rest"]

    def key(self, k):
        """the z3 key of a key of the verified code"""
        from pyvc.core import SStr, Unsupported, to_z3
        from pyvc.values import VList
        if isinstance(k, SKey):
            return k.e
        if isinstance(k, (tuple, VList)) and len(k) == 2 and all(isinstance(x, (str, SStr)) for x in k):
            return self.KEY.query(to_z3(k[0]), to_z3(k[1]))
        raise Unsupported("key of a measurement")

    def right(self, e):
        return self.value(self.KEY.method(e), self.KEY.drawing(e))

    def map(self, name):
        import z3
        return Map(self, z3.Const(name + "!has", z3.ArraySort(self.KEY, z3.BoolSort())),
                   z3.Const(name + "!val", z3.ArraySort(self.KEY, z3.RealSort())))


class SKey:
    def __init__(self, e):
        self.e = e


class Map:
    """A dictionary from queries to measurements."""
    _pyvc_map = _pyvc_stub = True

    def __init__(self, w, has, val):
        self.w, self.has, self.val = w, has, val

    def _pyvc_isinstance(self, t):
        return dict in (t if isinstance(t, tuple) else (t,))

    def get(self, k, default=None):
        from pyvc.core import wrap
        import z3
        e = self.w.key(k)
        self.w.keys.append(e)
        return wrap(z3.Select(self.val, e)) if self.w.ctx.branch(z3.Select(self.has, e)) else default

    def _pyvc_contains(self, k):
        from pyvc.core import mk
        import z3
        return mk(z3.Select(self.has, self.w.key(k)))

    def _pyvc_getitem(self, k):
        from pyvc.values import mark
        e = self.get(k)
        if e is None:
            raise mark(KeyError("missing measurement"))
        return e

    def _pyvc_setitem(self, k, v):
        import z3
        from pyvc.core import Unsupported, is_num, to_z3
        if self.w.ctx.loop_stack:
            raise Unsupported("measurements stored in a loop")
        if not is_num(v):
            raise Unsupported("a measurement that is no number")
        e, v = self.w.key(k), to_z3(v)
        self.has = z3.Store(self.has, e, z3.BoolVal(True))
        self.val = z3.Store(self.val, e, z3.ToReal(v) if z3.is_int(v) else v)

    def _pyvc_truth(self):
        from pyvc.core import Unsupported
        raise Unsupported("truth of a dictionary of measurements")

    def setdefault(self, k, v=None):
        r = self.get(k)
        if r is None:
            self._pyvc_setitem(k, v)
            return v
        return r

    def copy(self):
        return Map(self.w, self.has, self.val)

    def clear(self):
        import z3
        self.has = z3.K(self.w.KEY, z3.BoolVal(False))

    def update(self, o):
        import z3
        from pyvc.core import Unsupported
        if not isinstance(o, Map):
            raise Unsupported("update by something else")
        k = z3.Const("k!u", self.w.KEY)
        self.val = z3.Lambda([k], z3.If(z3.Select(o.has, k), z3.Select(o.val, k), z3.Select(self.val, k)))
        self.has = z3.Lambda([k], z3.Or(z3.Select(o.has, k), z3.Select(self.has, k)))

    def items(self):
        """the entries in some order, each once"""
        import z3
        from pyvc.core import wrap
        from pyvc.values import Base, VSeq
        w = self.w
        n = w.ctx.int("entries")
        w.ctx.assume(n.e >= 0)
        at = z3.Function("entry%d" % len(w.keys), z3.IntSort(), w.KEY)
        has, val = self.has, self.val
        w.keys.append(None)
        base = Base(n, "entries%d" % len(w.keys))

        def elem(k):
            w.ctx.assume(z3.Select(has, at(k)))
            return (wrap(w.KEY.method(at(k))), wrap(w.KEY.drawing(at(k)))), wrap(z3.Select(val, at(k)))
        seq = base.of = VSeq(base, elem)
        return seq


def pairs(w, seq, k):
    """(key, value) of the entry k of a list of entries"""
    from pyvc.core import Unsupported, to_z3
    x = seq.at(k)
    if not isinstance(x, (list, tuple)) or len(x) != 2:
        raise Unsupported("entries of the saved file")
    return w.key(x[0] if isinstance(x[0], (list, tuple)) else x[0]), to_z3(x[1])


class Shell_:
    """the drawing program: its version and its measurements"""
    _pyvc_stub = True

    def __init__(self, w, version):
        self.w, self.version = w, version
        self.asked = []

    def _pyvc_isinstance(self, t):
        from elsie.render.inkscape import InkscapeShell
        return InkscapeShell in (t if isinstance(t, tuple) else (t,))

    def get_version(self):
        return self.version

    def ask(self, what, svg, id):
        self.asked.append((what, svg, id))
        return self.w.ctx.real("answer")

    def get_width(self, svg, id):
        return self.ask("width", svg, id)

    def get_height(self, svg, id):
        return self.ask("height", svg, id)

    def get_x(self, svg, id):
        return self.ask("x", svg, id)


class Files:
    """files by name: the last thing written to them as JSON"""

    def __init__(self, w):
        import builtins
        import json
        import os
        self.w, self.content = w, {}
        I = w.I
        I.models[os.path.isfile] = lambda I_, f: f in self.content
        I.models[os.path.exists] = lambda I_, f: f in self.content
        I.models[os.path.join] = lambda I_, *a: "/".join(a)

        def replace(I_, a, b):
            self.content[b] = self.content.pop(a)
        I.models[os.replace] = I.models[os.rename] = replace
        I.models[builtins.open] = lambda I_, f, mode="r", *a, **kw: File_(self, f, mode)
        I.models[json.load] = lambda I_, f: self.content[f.name]

        def dump(I_, x, f, *a, **kw):
            self.content[f.name] = x
        I.models[json.dump] = dump


class File_:
    _pyvc_stub = True

    def __init__(self, files, name, mode):
        self.name = name
        if "w" in mode:
            files.content[name] = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def flush(self):
        pass

    def close(self):
        pass


def storage(cls):
    """the names under which the real class remembers measurements: (all of them, those used for the deck)"""
    from pyvc.core import Unsupported
    cache = decks.fresh_dir()
    sh = decks.shell()

    def fresh():
        return cls(inkscape=sh, cache_dir=cache)

    def dicts(b):
        return {k: v for k, v in vars(b).items() if isinstance(v, dict)}
    a = fresh()
    names = [k for k, v in dicts(a).items() if v == {}]
    d = decks.deck(cache_dir=cache)
    size(d.new_slide(), "abc", 10)
    got = {k for k in names if dicts(d.backend).get(k)}
    d.backend.save_cache()
    b = fresh()
    loaded = {k for k in got if dicts(b).get(k)}
    if len(names) != 2 or len(loaded) > 1:
        raise Unsupported("storage of the measurements")
    # (changes may break saving or remembering: the names are those of the unchanged code then)
    stored = next(iter(loaded)) if loaded else "query_cache"
    if stored not in names:
        raise Unsupported("storage of the measurements")
    return stored, next(n for n in names if n != stored)


def state(w, cls, version):
    """a backend whose caches hold anything that fits together"""
    import z3
    b = cls.__new__(cls)
    proto = decks.deck().backend
    vars(b).update(vars(proto))
    stored, used = storage(cls)
    b.inkscape = w.shell = Shell_(w, version)
    b.inkscape_version = version
    b.cache_dir = "/cache"
    w.names = stored, used
    setattr(b, stored, w.map("stored"))
    setattr(b, used, w.map("used"))
    w.made = z3.Const("made", z3.ArraySort(w.KEY, z3.BoolSort()))
    w.ctx.register(b, "backend")
    return b


def fits(w, b, k):
    """the entry k of the caches of the backend: values are right, what is used or was measured is there"""
    import z3
    stored, used = getattr(b, w.names[0]), getattr(b, w.names[1])
    return z3.And(z3.Implies(z3.Select(stored.has, k), z3.Select(stored.val, k) == w.right(k)),
                  z3.Implies(z3.Select(used.has, k), z3.And(z3.Select(stored.has, k),
                                                           z3.Select(used.val, k) == w.right(k))),
                  z3.Implies(z3.Select(w.made, k), z3.Select(used.has, k)))


def check_state(w, b):
    import z3
    from pyvc.core import Unsupported
    for n in w.names:
        if getattr(b, n) == {}:
            setattr(b, n, Map(w, z3.K(w.KEY, z3.BoolVal(False)), z3.K(w.KEY, z3.RealVal(0))))
    if not all(isinstance(getattr(b, n), Map) for n in w.names):
        raise Unsupported("other storage of the measurements")
    if getattr(b, w.names[0]) is getattr(b, w.names[1]):
        raise Unsupported("one storage for both")
    k = w.ctx.fresh("any_query", w.KEY)
    for x in [k] + [e for e in w.keys if e is not None]:
        w.ctx.assume(w.inv0(x))
    w.ctx.prove("the remembered measurements fit", fits(w, b, k))
    return k


@unit("a query returns the measurement of exactly its drawing and measures it at most once; pruning keeps what was used",
      functions=["InkscapeBackend.process_query", "InkscapeBackend.prune_cache"])
def u_query(ctx):
    import z3
    from pyvc.core import SNum, to_z3
    from elsie.render.backends import InkscapeBackend
    w = World(ctx)
    b = state(w, InkscapeBackend, ctx.str("version"))
    stored, used = getattr(b, w.names[0]).copy(), getattr(b, w.names[1]).copy()
    made0 = w.made

    def inv0(k):
        return z3.And(z3.Implies(z3.Select(stored.has, k), z3.Select(stored.val, k) == w.right(k)),
                      z3.Implies(z3.Select(used.has, k), z3.And(z3.Select(stored.has, k),
                                                               z3.Select(used.val, k) == w.right(k))),
                      z3.Implies(z3.Select(made0, k), z3.Select(used.has, k)))
    w.inv0 = inv0

    def measure(shell, method, data):
        e = w.key((method, data))
        ctx.assume(inv0(e))
        ctx.prove("measured by the program of the backend", shell is w.shell)
        ctx.prove("a measurement is made at most once", z3.Not(z3.Select(w.made, e)))
        w.made = z3.Store(w.made, e, z3.BoolVal(True))
        return SNum(w.right(e))
    measure.__module__ = "props.C02"
    ctx.contracts["render.backends.svg.query.compute_query"] = measure
    q = z3.Select
    if ctx.choose(2, "operation"):
        ctx.reach("pruned")
        w.I.call(b.prune_cache)
        k = check_state(w, b)
        ctx.prove("pruning keeps what was used", z3.Implies(q(used.has, k), q(getattr(b, w.names[0]).has, k)))
        ctx.prove("pruning drops what was not used", z3.Implies(q(getattr(b, w.names[0]).has, k), q(used.has, k)))
        ctx.prove("pruning does not forget what was used", q(getattr(b, w.names[1]).has, k) == q(used.has, k))
        return
    method, data = ctx.str("method"), ctx.str("drawing")
    e = w.key((method, data))
    ctx.assume(inv0(e))
    r = w.I.call(b.process_query, (method, data))
    ctx.reach("answered")
    ctx.prove("an answer is a number", isinstance(r, (SNum, float, int)))
    ctx.prove("the measurement of exactly this drawing", to_z3(r) == w.right(e))
    k = check_state(w, b)
    a, u = getattr(b, w.names[0]), getattr(b, w.names[1])
    ctx.prove("a query is remembered as used", q(u.has, e))
    ctx.prove("nothing is forgotten", z3.And(z3.Implies(q(stored.has, k), q(a.has, k)),
                                             z3.Implies(q(used.has, k), q(u.has, k))))


@unit("what is saved loads back: the same values for the same queries, and nothing at all of other versions",
      functions=["InkscapeBackend.save_cache", "InkscapeBackend._save_query_cache", "InkscapeBackend._load_query_cache",
                 "InkscapeBackend.__init__"])
def u_saved(ctx):
    import z3
    from pyvc.core import Unsupported, to_z3
    from pyvc.values import VSeq
    from elsie.render.backends import InkscapeBackend
    import elsie.render.backends.svg.backend as mod
    w = World(ctx)
    files = Files(w)
    version = ctx.str("version")
    b = state(w, InkscapeBackend, version)
    a = getattr(b, w.names[0]).copy()
    w.I.call(b.save_cache)
    ctx.prove("one file is written", len(files.content) == 1)
    name, conf = next(iter(files.content.items()))
    if not isinstance(conf, dict):
        raise Unsupported("form of the saved file")
    found = [(k, v) for k, v in conf.items() if isinstance(v, VSeq)]
    if len(found) != 1:
        raise Unsupported("form of the saved file")
    field, seq = found[0]
    # a reader sees lists in the place of tuples
    k = ctx.fresh("any_entry", z3.IntSort())
    ctx.assume(z3.And(k >= seq.lo, k < seq.hi))
    seq.inst(k)
    key, val = pairs(w, seq, k)
    ctx.prove("only remembered measurements are saved", z3.And(z3.Select(a.has, key), z3.Select(a.val, key) == val))
    items = seq.base.of
    ctx.prove("all remembered measurements are saved",
              z3.And(z3.BoolVal(seq.guard is None), to_z3(seq.lo) == 0, seq.hi == items.base.n))
    ctx.prove("each with its own value", z3.And(w.key(items.at(k)[0]) == key, to_z3(items.at(k)[1]) == val))
    # the next run: the same versions, or another version of the program or of the library, or a file without versions
    how = ctx.choose(3, "next run")
    version2 = ctx.str("version2") if how == 1 else version
    saved_version = mod.VERSION
    if how == 2:
        found = [f for f, v in conf.items() if isinstance(v, str) and v == saved_version] if isinstance(saved_version, str) else []
        if len(found) != 1:
            raise Unsupported("version in the saved file")
        if ctx.choose(2, "no version"):
            del conf[found[0]]
        else:
            other = ctx.str("other_version")
            ctx.assume(to_z3(other) != z3.StringVal(saved_version))
            conf[found[0]] = other
    stored_lists = VSeq(seq.base, lambda i: [[x for x in seq.at(i)[0]], seq.at(i)[1]], seq.lo, seq.hi)
    conf[field] = stored_lists
    loads = []

    def dict_(I_, *args, **kw):
        from pyvc.interp import m_dict, LazyGen
        if len(args) == 1 and isinstance(args[0], VSeq):
            m = w.map("loaded")
            loads.append((m, args[0]))
            return m
        return m_dict(I_, *args, **kw)
    w.I.models[dict] = dict_
    new = w.I.call(InkscapeBackend, (Shell_(w, version2),), {"cache_dir": "/cache"})
    got = getattr(new, w.names[0])
    ctx.prove("a new deck has used nothing yet", getattr(new, w.names[1]) == {})
    if how == 0 or how == 1 and ctx.branch(to_z3(version2) == to_z3(version)):
        ctx.reach("loaded")
        ctx.prove("a saved cache of the same versions is loaded", len(loads) == 1 and got is loads[0][0])
        if len(loads) != 1:
            return
        back = loads[0][1]
        ctx.prove("all measurements are loaded", z3.And(z3.BoolVal(back.guard is None and back.base is seq.base),
                                                        to_z3(back.lo) == to_z3(seq.lo), back.hi == seq.hi))
        key2, val2 = pairs(w, back, k)
        ctx.prove("the same values for the same queries", z3.And(key2 == key, val2 == val))
        ctx.prove("loaded queries are found again", isinstance(back.at(k)[0], tuple))
        return
    ctx.reach("ignored")
    ctx.prove("a saved cache of other versions is ignored", isinstance(got, dict) and got == {} and not loads)


@unit("nothing is loaded if nothing was saved", functions=["InkscapeBackend._load_query_cache", "InkscapeBackend.__init__"])
def u_nothing(ctx):
    from elsie.render.backends import InkscapeBackend
    w = World(ctx)
    Files(w)
    stored, used = storage(InkscapeBackend)
    b = w.I.call(InkscapeBackend, (Shell_(w, ctx.str("version")),), {"cache_dir": "/cache"})
    ctx.reach("made")
    ctx.prove("nothing is remembered", getattr(b, stored) == {} and getattr(b, used) == {})


@unit("a text is measured in exactly its own drawing, at the origin, by its own id",
      functions=["InkscapeBackend.compute_text_width", "InkscapeBackend.compute_text_height",
                 "InkscapeBackend.compute_text_x", "InkscapeBackend._text_query", "compute_query", "Xml"])
def u_measure(ctx):
    import inspect
    import z3
    import lxml.etree as et
    from pyvc.core import SStr, to_z3
    from elsie.render.backends import InkscapeBackend
    from elsie.render.backends.svg.draw import draw_text
    w = World(ctx)
    b = state(w, InkscapeBackend, ctx.str("version"))
    parsed, style, styles = object(), object(), object()
    drawing = ctx.str("drawing")
    drawn, keys = [], []
    sig = inspect.signature(draw_text)

    def draw(*a, **kw):
        args = sig.bind(*a, **kw)
        args.apply_defaults()
        drawn.append(args.arguments)
        w.I.call(args.arguments["xml"].raw_text, (drawing,))

    def query(self, method, data):
        from elsie.render.backends.svg.backend import compute_query
        keys.append((method, data))
        return w.I.call(compute_query, (self.inkscape, method, data))
    for f, n in ((draw, "render.backends.svg.draw.draw_text"),
                 (query, "render.backends.svg.backend.InkscapeBackend.process_query")):
        f.__module__ = "props.C02"
        ctx.contracts[n] = f
    what = ("width", "height", "x")[ctx.choose(3, "what")]
    index = (None, ctx.int("index"))[ctx.choose(2, "section")]
    fn = getattr(b, "compute_text_" + what)
    r = w.I.call(fn, (parsed, style, styles), {} if index is None else {"id_index": index})
    ctx.reach(what)
    asked = w.shell.asked
    ctx.prove("measured once", len(asked) == 1 and len(drawn) == 1 and len(keys) == 1)
    if len(asked) != 1 or len(drawn) != 1 or len(keys) != 1:
        return
    d = drawn[0]
    ctx.prove("the measurement asked for", asked[0][0] == what)
    ctx.prove("the text with its styles is drawn", d["parsed_text"] is parsed and d["style"] is style
              and d["styles"] is styles)
    ctx.prove("the section asked for is marked", d["id_index"] is index)
    ctx.prove("what is marked is measured", isinstance(d["id"], str) and asked[0][2] == d["id"])
    ctx.prove("drawn at the origin", d["x"] == 0)
    ctx.prove("drawn as it is", d["transform"] is None)
    ctx.prove("the remembered query says what is measured", to_z3(keys[0][1]) == to_z3(drawing))
    svg = asked[0][1]
    parts = svg.parts if isinstance(svg, SStr) else (svg,)
    text = "".join(p if isinstance(p, str) else "<mark/>" if z3.is_expr(p) and p.eq(drawing.expr()) else "<other/>" for p in parts)
    root = et.fromstring(text)
    ctx.prove("a picture of the drawing alone", root.tag == decks.SVG + "svg" and len(root) == 1
              and root[0].tag == decks.SVG + "mark" and not (root.text or "").strip())
    ctx.prove("nothing moves or scales the drawing", not ({"viewBox", "transform", "width", "height"} & set(root.keys())))
    # queries of different kinds are different
    others = []
    for k in ("width", "height", "x"):
        if k != what:
            n = len(keys)
            w.I.call(getattr(b, "compute_text_" + k), (parsed, style, styles))
            others += keys[n:]
    ctx.prove("each kind of measurement is remembered apart", all(k[0] != keys[0][0] for k in others))
