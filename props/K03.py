"""K03 Cairo text."""
import contextlib
import math
import struct
import cairocffi
import pangocffi
from pyvc.api import bounded, unit
from pyvc import decks, toks
from props.X02 import rnd_styles
from elsie import TextStyle
from elsie.utils.geom import Rect
from elsie.render.backends.cairo.rcontext import CairoRenderingContext

MARK = "\u2800"
COLORS = {"black": (0, 0, 0), "red": (1, 0, 0), "blue": (0, 0, 1)}
KINDS = ("size", "family", "color", "weight", "style")


class Cap:
    pass


def raw(attr):
    """(type, value as a float) of a Pango attribute: klass pointer (first field: type), start, end, value"""
    ffi = pangocffi.ffi
    b = bytes(ffi.buffer(ffi.cast("char *", attr.get_pointer()), 24))
    klass, _, _, v = struct.unpack("=QIId", b)
    return struct.unpack("=i", bytes(ffi.buffer(ffi.cast("char *", klass), 4)))[0], v


SCALE = raw(pangocffi.Attribute.from_pointer(pangocffi.pango.pango_attr_scale_new(2.0)))[0]


@contextlib.contextmanager
def capture():
    """Texts and attributes handed to Pango: patched constructors of the library, not of the code."""
    A, L, Y = pangocffi.Attribute, pangocffi.AttrList, pangocffi.Layout
    cap = Cap()
    cap.attrs, cap.texts = [], []
    keep = []
    made = {}
    names = {"from_size_absolute": "size", "from_family": "family", "from_foreground_color": "color",
             "from_weight": "weight", "from_style": "style", "from_foreground_alpha": "alpha"}
    saved = {n: A.__dict__[n] for n in names}
    s_ins, s_text, s_attr = L.insert, Y.__dict__.get("text"), Y.__dict__.get("set_text")

    def mk(n):
        real = getattr(A, n)

        def f(*a, **k):
            r = real(*a, **k)
            keep.append(r)
            vals = [x for x in a]
            k = dict(k)
            k.pop("start_index", None), k.pop("end_index", None)
            made[id(r)] = (names[n], tuple(vals) + tuple(k.values()))
            return r
        return staticmethod(f)

    def ins(self, attr):
        what = made.get(id(attr))
        if what is None and raw(attr)[0] == SCALE:
            what = ("scale", (raw(attr)[1],))
        cap.attrs.append((what, attr.start_index, attr.end_index))
        return s_ins(self, attr)
    for n in names:
        setattr(A, n, mk(n))
    L.insert = ins

    def set_text(self, t):
        cap.texts.append(t)
        return s_attr(self, t)
    Y.set_text = set_text
    try:
        yield cap
    finally:
        for n, f in saved.items():
            setattr(A, n, f)
        L.insert = s_ins
        Y.set_text = s_attr


def expected(tk, base, styles):
    """[(char, style dict)] with None for placeholders and line breaks"""
    act = [base]
    out, line = [], 0

    def eff():
        d = {}
        for s in act:
            if s is not None:
                for p in ("font", "size", "color", "bold", "italic", "opacity"):
                    if getattr(s, p) is not None:
                        d[p] = getattr(s, p)
        return d
    for k, v in tk:
        if k == "text":
            out += [(c, eff()) for c in v]
            line += len(v)
        elif k == "newline":
            for _ in range(v):
                if not line:
                    out.append((MARK, None))
                out.append(("\n", None))
                line = 0
        elif k == "begin":
            if v.startswith("#"):
                act.append(None)
            else:
                prio = [a.priority for a in act if a is not None][-1]
                act.append(None if prio > styles[v].priority else styles[v])
        else:
            act.pop()
    return out


@bounded("texts", "random balanced texts over 5 section names (one dummy), characters of 1-4 bytes, line breaks, random "
                  "styles and priorities: text handed to Pango and the attributes covering every character")
def texts(B):
    rng = B.rng
    for it in range(B.n(1500, 20000)):
        tk = toks.rnd_tokens(rng, rng.randint(1, 14), styles=("a", "b", "c", "d", "#x"), text="xy \u00e9\u20ac\U0001f600<")
        styles = rnd_styles(rng)
        styles["default"] = TextStyle(font="F", size=10, color="black", bold=False, italic=False, align="left",
                                      line_spacing=1.25)
        base = TextStyle(align=rng.choice(["left", "middle", "right"]), priority=rng.choice([0, 0, 1]),
                         **({"color": "blue"} if rng.random() < 0.3 else {}))
        full = styles["default"].compose(base)
        B.case((tk, {n: repr(s) for n, s in styles.items()}, repr(base)))
        rc = CairoRenderingContext(100, 80)
        with capture() as cap:
            scale = 1.0
            if rng.random() < 0.5:
                scale = rng.choice([1.0, 1.0, 0.5, 2.0])
                rc.draw_text(Rect(0, 0, 50, 50), 1, 2, tk, base, styles, **({} if scale == 1.0 else {"scale": scale}))
            else:
                rc.compute_text_extents(tk, base, styles)
        want = expected(tk, full, styles)
        B.eq(cap.texts, ["".join(c for c, _ in want)], "characters and line breaks", tokens=tk)
        pos = 0
        for c, st in want:
            n = len(c.encode())
            if st is not None:
                got = {}
                for m, a, b in cap.attrs:
                    if m is not None and a <= pos and b >= pos + n:
                        got[m[0]] = m[1]
                    elif m is not None and a < pos + n and b > pos:
                        B.fail("an attribute covers a part of a character", tokens=tk)
                alpha = st.get("opacity")
                B.eq(sorted(k for k in got if k not in ("alpha", "scale")), sorted(KINDS), "attributes of a character", char=c, pos=pos, tokens=tk,
                     attrs=cap.attrs)
                B.eq(got["size"][0], pangocffi.units_from_double(st["size"]), "size", char=c, pos=pos, tokens=tk)
                B.eq(got["family"][0], st["font"], "font", char=c, pos=pos, tokens=tk)
                B.check(all(abs(g - 65535 * w) < 2 for g, w in zip(got["color"], COLORS[st["color"]])), "colour",
                        got=got["color"], want=st["color"], char=c, pos=pos, tokens=tk)
                B.check(abs((got["alpha"][0] / 65535 if "alpha" in got else 1) - (1 if alpha is None else alpha)) < 1e-4,
                        "opacity", got=got.get("alpha"), want=alpha, char=c, pos=pos, tokens=tk)
                B.eq(got["scale"][0] if "scale" in got else 1.0, scale, "text scale", char=c, pos=pos, tokens=tk)
                B.eq(got["weight"][0] == pangocffi.Weight.BOLD, bool(st["bold"]), "bold", char=c, pos=pos, tokens=tk)
                B.eq(got["style"][0] == pangocffi.Style.ITALIC, bool(st["italic"]), "italic", char=c, pos=pos, tokens=tk)
            pos += n


@bounded("sections", "x and width of every section of random single-line texts (characters of 1-4 bytes, nested and equal "
                     "sections) against the positions of its characters in the layout of the whole text")
def sections(B):
    rng = B.rng
    for it in range(B.n(300, 4000)):
        tk = toks.rnd_tokens(rng, rng.randint(3, 12), styles=("a", "b", "#x"), newline=False,
                             text="xyi \u00e9\u20ac", empty=False)
        styles = {"default": TextStyle(font="sans-serif", size=12, color="black", bold=False, italic=False,
                                       align="left", line_spacing=1.2),
                  "a": TextStyle(color="red"), "b": TextStyle(bold=True)}
        base = TextStyle(align=rng.choice(["left", "middle", "right"]))
        flat, names = toks.flat(tk)
        rc = CairoRenderingContext(100, 80)
        whole = rc.compute_text_extents(tk, base, styles)
        idx = [j for j, (k, _) in enumerate(tk) if k == "begin"]
        # widths of prefixes by character, from sections around every single character
        for sec, j in enumerate(idx):
            inside = [i for i, (_, st) in enumerate(flat) if sec in st]
            if not inside:
                continue
            B.case((tk, j))
            r = rc.compute_subtext_extents(tk, base, styles, j)
            # split the text so that every character of the section stands in a dummy section of its own
            parts = []
            tk2, n, where = [], 0, {}
            for k, v in tk:
                if k != "text":
                    tk2.append((k, v))
                    continue
                for c in v:
                    where[n] = len(tk2)
                    tk2 += [("begin", "#q"), ("text", c), ("end", None)]
                    n += 1
            cs = [rc.compute_subtext_extents(tk2, base, styles, where[i]) for i in inside]
            B.check(abs(r.width - sum(c.width for c in cs)) < 0.02, "width of a section is the width of its characters",
                    got=r.width, want=[c.width for c in cs], tokens=tk, index=j)
            B.check(abs(r.x - min(c.x for c in cs)) < 0.02, "left edge of a section", got=r.x,
                    want=[c.x for c in cs], tokens=tk, index=j)


# ------------------------------------------------------------------ proofs
class Bytes:
    """the bytes of a text: how many there are"""
    _pyvc_stub = True

    def __init__(self, n):
        self.n = n

    def _pyvc_len(self):
        from pyvc.core import mk
        return mk(self.n)


class Encoded:
    """lengths of texts in bytes"""

    def __init__(self, ctx):
        import z3
        self.ctx = ctx
        self.f = z3.Function("bytes", z3.StringSort(), z3.IntSort())
        ctx.assume(self.f(z3.StringVal("")) == 0)
        ctx.str_hooks["encode"] = self.encode

    def size(self, e):
        """with what is known of it"""
        import z3
        n = self.f(e)
        self.ctx.assume(z3.And(n >= 0, (n == 0) == (e == z3.StringVal(""))))
        return n

    def joined(self, a, b):
        import z3
        self.ctx.assume(self.f(z3.Concat(a, b)) == self.size(a) + self.size(b))

    def encode(self, s, how="utf-8", *a):
        import z3
        from pyvc.core import SNum, Unsupported
        if not isinstance(how, str) or how.lower().replace("-", "").replace("_", "") != "utf8" or a:
            raise Unsupported("encode")
        n = z3.IntVal(0)
        e = None
        for p in s.parts:
            if isinstance(p, SNum):
                raise Unsupported("encode")
            if isinstance(p, str):
                m, q = z3.IntVal(len(p.encode())), z3.StringVal(p)
            else:
                m, q = self.size(p), p
            n = n + m
            if e is not None:
                self.ctx.assume(self.f(z3.Concat(e, q)) == self.size(e) + m)
            self.ctx.assume(self.f(q) == m)
            e = q if e is None else z3.Concat(e, q)
        return Bytes(z3.simplify(n))
    encode.__module__ = "props.K03"


class Ranges:
    """the list of Pango attributes: what is inserted is logged"""
    _pyvc_stub = True

    def __init__(self):
        from pyvc.values import VList
        self.log = VList(tag="attributes")

    def insert(self, x):
        from pyvc.core import cur
        cur().interp.list_method(self.log, "append", (x,), {})


for cls in (Bytes, Encoded, Ranges):
    cls.__module__ = "props.K03"


class Cover:
    """Styles, their composition, the styles of open sections, and the styles covering a text, range by range"""

    def __init__(self, ctx):
        import z3
        from pyvc.core import mk, to_z3
        from pyvc.values import Measure, NotApplicable, RefKind, SOpt
        self.ctx = ctx
        Z, R, S, B_ = z3.IntSort(), z3.RealSort(), z3.StringSort(), z3.BoolSort()
        self.Z, self.S, self.B = Z, S, B_
        self.REF = REF = z3.DeclareSort("Style")
        A = z3.Datatype("Sections")
        A.declare("nil")
        A.declare("sec", ("rest", A), ("deep", Z), ("some", B_), ("eff", REF))
        self.A = A = A.create()
        C = z3.Datatype("Cover")
        C.declare("bare")
        C.declare("range", ("before", C), ("upto", Z), ("style", REF))
        self.C = C = C.create()
        self.PR = z3.Function("priority", REF, R)
        self.OVER = z3.Function("composed", REF, REF, REF)
        self.none = z3.Const("no_style", REF)
        self.style = z3.Const("own_style", REF)
        cover = self

        class Style(TextStyle):
            """a style: all that matters is which; composition is S01's"""
            _pyvc_stub = True
            __slots__ = ("e",)

            def __init__(self, e):
                object.__setattr__(self, "e", e)
            priority = property(lambda self: mk(cover.PR(self.e)))

            def compose(self, other):
                return Style(cover.composed(self.e, other.e))
        Style.__module__ = "props.K03"
        self.Style = Style
        ctx.optional_refs = True
        RefKind("style", REF, lambda v: (v.e, ()) if isinstance(v, Style) else None, lambda e, x: Style(e))

        def sections(get, x):
            """the sections of a list of styles"""
            if x is None:
                some, r = z3.BoolVal(False), None
            elif isinstance(x, Style):
                some, r = z3.BoolVal(True), x.e
            elif isinstance(x, SOpt) and isinstance(x.val, Style):
                some, r = z3.Not(x.none), x.val.e
            else:
                raise NotApplicable()
            return self.section(to_z3(get("sections")), some, r)
        ctx.measures["sections"] = Measure("sections", A, A.nil, sections)

        def on_events(f):
            def g(get, x):
                if type(x) is not tuple or not x or x[0] != "attributes":
                    raise NotApplicable()
                return z3.simplify(f(get, *x[1:]))
            return g
        ctx.measures["cover"] = Measure("cover", C, C.bare, on_events(
            lambda get, s, a, b: self.add(to_z3(get("cover")), a, b, s)))
        ctx.measures["gapless"] = Measure("gapless", B_, z3.BoolVal(True), on_events(
            lambda get, s, a, b: z3.And(to_z3(get("gapless")), a <= b, a == self.upto(to_z3(get("cover"))))))

    def composed(self, a, b):
        r = self.OVER(a, b)
        self.ctx.assume(self.PR(r) == self.PR(b))
        return r

    def upto(self, c):
        import z3
        return z3.If(self.C.is_range(c), self.C.upto(c), 0)

    def add(self, c, a, b, s):
        import z3
        C = self.C
        return z3.If(a == b, c, z3.If(z3.And(C.is_range(c), C.style(c) == s), C.range(C.before(c), b, s),
                                      C.range(c, b, s)))

    def section(self, rest, some, r):
        import z3
        A = self.A
        up = A.is_sec(rest)
        return z3.simplify(A.sec(rest, z3.If(up, A.deep(rest) + 1, 0), z3.Or(some, z3.And(up, A.some(rest))), z3.If(
            some, self.none if r is None else r, z3.If(up, A.eff(rest), self.none))))

    def sound(self, a, own):
        """the depths in a are right, and its bottom is the text's own style; with the defining equations"""
        import z3
        A = self.A
        f = z3.Function("sound", A, self.B)
        for x in (a, A.rest(a)):
            r = A.rest(x)
            self.ctx.assume(f(x) == z3.Implies(A.is_sec(x), z3.And(
                f(r), z3.If(A.is_sec(r), A.some(r), A.eff(x) == own), A.deep(x) == z3.If(A.is_sec(r), A.deep(r) + 1, 0))))
        for x in (a, A.rest(a), A.rest(A.rest(a))):
            self.ctx.assume(z3.Implies(A.is_sec(x), z3.Implies(f(x), A.deep(x) >= 0)))
        return f(a)

    def length_of(self, b):
        """the sections of a list are as deep as it is long; returns the statement and uses it"""
        import z3
        from pyvc.core import to_z3
        S = lambda j: to_z3(b.G("sections", j))

        def length(j):
            return z3.And((j > 0) == self.A.is_sec(S(j)), z3.Implies(j > 0, self.A.deep(S(j)) == j - 1))
        if not getattr(b, "counted", False):
            b.counted = True
            b.induct("the depth of a list of sections", length)
        return length


def reading(ctx, t, p, named, enc, own):
    """what a text is, token by token"""
    import z3
    from pyvc.core import to_z3
    from props import _toks as K
    A, C, b = p.A, p.C, t.base
    g = lambda G, n: to_z3(G(n))
    BRK = z3.Function("line_breaks", p.B, p.Z, p.S)
    mark, nl = z3.StringVal(MARK), z3.StringVal("\n")

    def breaks(e, n):
        """n line breaks (e: behind a line without characters), with the defining equations"""
        ctx.assume(BRK(e, 0) == z3.StringVal(""))
        for m in (n - 1, n):
            ctx.assume(z3.Implies(m >= 0, BRK(e, m + 1) == z3.Concat(
                BRK(e, m), z3.If(z3.Or(m > 0, e), z3.StringVal(MARK + "\n"), nl))))
        return BRK(e, n)
    empty = lambda s: s == z3.StringVal("")
    b.fold("bare", p.B, z3.BoolVal(True), lambda k, G: z3.If(t.kind(k) == K.TEXT, z3.And(
        g(G, "bare"), empty(t.text(k))), z3.Or(g(G, "bare"), t.kind(k) == K.NEWLINE)))

    def chars(k, G):
        s = g(G, "chars")
        br = breaks(g(G, "bare"), t.count(k))
        return z3.If(t.kind(k) == K.TEXT, z3.Concat(s, t.text(k)), z3.If(t.kind(k) == K.NEWLINE, z3.Concat(s, br), s))
    b.fold("chars", p.S, z3.StringVal(""), chars)

    def more(k, G):
        return z3.If(t.kind(k) == K.TEXT, enc.size(t.text(k)), z3.If(
            t.kind(k) == K.NEWLINE, enc.size(breaks(g(G, "bare"), t.count(k))), 0))
    b.fold("size", p.Z, z3.IntVal(0), lambda k, G: g(G, "size") + more(k, G))

    def sections(k, G):
        a = g(G, "sections")
        r = named.REFS(t.text(k))
        some = z3.And(z3.Not(z3.PrefixOf(z3.StringVal("#"), t.text(k))), p.PR(A.eff(a)) <= p.PR(r))
        return z3.If(t.kind(k) == K.BEGIN, p.section(a, some, p.composed(A.eff(a), r)), z3.If(
            t.kind(k) == K.END, A.rest(a), a))
    b.fold("sections", A, p.section(A.nil, z3.BoolVal(True), own), sections)
    b.fold("cover", C, C.bare, lambda k, G: p.add(g(G, "cover"), g(G, "size"), g(G, "size") + more(k, G),
                                                  A.eff(g(G, "sections"))))

    def lemma(k):
        G = lambda n: to_z3(b.G(n, k))
        a = G("sections")
        old(k)
        enc.joined(G("chars"), t.text(k))
        enc.joined(G("chars"), breaks(G("bare"), t.count(k)))
        return z3.And(A.is_sec(a), p.sound(a, own), A.some(a), A.deep(a) == G("open"), enc.f(G("chars")) == G("size"),
                      G("size") >= 0, p.upto(G("cover")) == G("size"), z3.Implies(A.deep(a) == 0, A.eff(a) == own))
    old = t.facts

    b.induct("a section for every open one, and the length of the text", lemma)

    def facts(k):
        old(k)
        ctx.assume(lemma(k))
        ctx.assume(lemma(k + 1))
        ctx.assume(z3.Implies(z3.And(t.kind(k) == K.BEGIN, z3.Not(z3.PrefixOf(z3.StringVal("#"), t.text(k)))),
                              named.HAS(t.text(k))))
    t.facts = facts
    return breaks


def laying(ctx, t, p, breaks):
    """loop invariants: what was laid out is what was read"""
    import z3
    from pyvc.core import SStr, to_z3
    from pyvc.interp import num
    b0, A = t.base, p.A

    def inv(view, x, bases):
        out = []
        if x is None:
            return out
        comps = [("%s%s" % (key, comp), comp, v) for key, d in view.items() for comp, v in d.items()]
        texts = [(lab, to_z3(v)) for lab, comp, v in comps if not comp and isinstance(v, (str, SStr))]
        for b in bases:
            G = lambda n, j: to_z3(b.G(n, j))
            if b is b0:
                for lab, v in texts:
                    out.append((lab + " empty", (v == z3.StringVal("")) == G("bare", x)))
                for lab, comp, v in comps:
                    if comp.endswith("m:cover"):
                        v = to_z3(v)
                        out.append((lab + " covers", v == G("cover", x)))
                        for l2, c2, u in comps:
                            if not c2 and num(u) and z3.is_int(to_z3(u)):
                                u = to_z3(u)
                                out.append((l2 + "<=size", u <= G("size", x)))
                                out.append((l2 + "==covered in " + lab, u == p.upto(v)))
                                out.append((lab + " covers but what begins at " + l2, p.add(
                                    v, u, G("size", x), A.eff(G("sections", x))) == G("cover", x)))
            elif "sections" in b.folds:
                S = lambda j: G("sections", j)
                length = p.length_of(b)
                for j in (x - 1, x, x + 1, b.n):
                    j = z3.simplify(j)
                    b.at(j)
                    ctx.assume(z3.Implies(z3.And(j >= 0, j <= b.n), length(j)))
                some = lambda a: z3.And(A.is_sec(a), A.some(a))
                out.append(("some style in %s" % b.label, some(S(x)) == some(S(b.n))))
                out.append(("style of %s the same" % b.label, A.eff(S(x)) == A.eff(S(b.n))))
            elif not b.folds:
                k = ctx.cur_k.get(b0.label)
                if k is None:
                    continue
                e, s = to_z3(b0.G("bare", k)), to_z3(b0.G("chars", k))
                br = breaks(e, x)
                for lab, v in texts:
                    out.append((lab + " empty", (v == z3.StringVal("")) == z3.Or(x > 0, e)))
                    out.append((lab + "==chars and breaks", v == z3.Concat(s, br)))
        return out
    ctx.invariants.append(inv)


@unit("text and attributes handed to Pango: every text", budget=300, functions=["get_text_and_attributes"])
def u_layout(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from pyvc.values import measure_states, mk_eq
    from props import _toks as K
    from props.X02 import Named
    from elsie.render.backends.cairo import text as M
    I, t = Interp(ctx), K.Tokens(ctx)
    p, enc = Cover(ctx), Encoded(ctx)
    named = Named(p)
    K.balanced(ctx, t)
    ctx.assume(named.HAS(z3.StringVal("default")))
    own = p.composed(named.REFS(z3.StringVal("default")), p.style)
    laying(ctx, t, p, reading(ctx, t, p, named, enc, own))
    scale = ctx.real("scale")

    def attributes(style, text_scale, start_index, end_index):
        ctx.prove("the text scale is passed on", mk_eq(text_scale, scale))
        return [("attributes", style.e, to_z3(start_index), to_z3(end_index))]
    attributes.__module__ = "props.K03"
    ctx.contracts["render.backends.cairo.text.style_to_attributes"] = attributes
    I.models[M.AttrList] = lambda I: Ranges()
    try:
        text, attrs = I.call(M.get_text_and_attributes, (t.given, p.Style(p.style), named, scale))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.prove("no text is rejected", False)
        return
    ctx.reach("laid out")
    st = measure_states(attrs.log)
    ctx.prove("characters and line breaks", mk_eq(text, t.base.G("chars", t.n)))
    ctx.prove("ranges follow each other", to_z3(st["gapless"]))
    ctx.prove("every character has the style of its sections", mk_eq(st["cover"], t.base.G("cover", t.n)))


@unit("the characters measured for a section", functions=["get_byte_range"])
def u_range(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from pyvc.values import mk_eq
    from props import _toks as K
    from elsie.render.backends.cairo import text as M
    I, t = Interp(ctx), K.Tokens(ctx)
    enc = Encoded(ctx)
    b = t.base
    K.balanced(ctx, t)
    i = ctx.int("section")
    s = to_z3(i)
    G = lambda n, k: to_z3(b.G(n, k))
    old = t.facts

    def one_line(k):
        old(k)
        ctx.assume(t.kind(k) != K.NEWLINE)
        ctx.assume(z3.Implies(k == s, t.kind(k) == K.BEGIN))
    t.facts = one_line
    b.fold("size", K.Z, z3.IntVal(0), lambda k, G: to_z3(G("size")) + z3.If(
        t.kind(k) == K.TEXT, enc.size(t.text(k)), 0))
    # the section has ended: after it began no more sections are open than before
    b.fold("ended", K.B_, z3.BoolVal(False), lambda k, G: z3.Or(to_z3(G("ended")), z3.And(
        k > s, to_z3(G("open")) + z3.If(t.kind(k) == K.BEGIN, 1, z3.If(t.kind(k) == K.END, -1, 0)) <= G0)))
    G0 = G("open", s)
    ctx.assume(z3.And(0 <= s, s < b.n))
    b.at(s)
    one_line(s)

    def lemma(k):
        one_line(k)
        return z3.And(z3.Implies(k <= s, z3.Not(G("ended", k))), z3.Implies(k == s + 1, G("open", k) == G0 + 1),
                      z3.Implies(z3.And(k > s + 1, G("open", k) <= G0), G("ended", k)))
    b.induct("a section ends", lemma)

    def facts(k):
        ctx.assume(lemma(k))
        ctx.assume(lemma(k + 1))
    t.facts = facts

    def inv(view, x, bases):
        out = []
        if x is None or b not in bases:
            return out
        from pyvc.interp import num
        out.append(("in or before the section", z3.Not(G("ended", x))))
        for key, d in view.items():
            if not isinstance(key[1], str):
                continue
            v = d.get("")
            if num(v) and z3.is_int(to_z3(v)):
                v = to_z3(v)
                out.append(("%s==size at the section" % (key,), v == G("size", s)))
                out.append(("%s==open at the section" % (key,), v == G0))
                out.append(("%s later" % (key,), x > s))
            elif v is None and "" in d:
                out.append(("%s none before the section" % (key,), x <= s))
        return out
    ctx.invariants.append(inv)
    b.at(b.n)
    ctx.assume(lemma(b.n))
    try:
        r = I.call(M.get_byte_range, (t.given, i))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.prove("the section has an end", False)
        return
    ctx.reach("found")
    k = ctx.cur_k[b.label]
    ctx.prove("from the beginning of the section", mk_eq(r[0], b.G("size", s)))
    ctx.prove("to its end", z3.And(mk_eq(r[1], b.G("size", k)), z3.Not(G("ended", k)), G("ended", k + 1)))


@unit("the attributes of a style", functions=["style_to_attributes"])
def u_attributes(ctx):
    import z3
    from pyvc.core import SNum, mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import mark, mk_eq
    from props import _style as Y
    from elsie.render.backends.cairo import text as M
    I = Interp(ctx)
    at = Y.slots()
    s = Y.raw(ctx, at, "style", {p: Y.value(ctx, p, p) if p in ("font", "size", "color", "priority") or (
        p in ("bold", "italic", "opacity") and ctx.choose(2, p)) else None for p in Y.FIELDS})
    f = Y.fields(s, at)
    if f["opacity"] is not None:
        ctx.assume(z3.And(to_z3(f["opacity"]) >= 0, to_z3(f["opacity"]) <= 1))
    made = []

    class Made:
        _pyvc_stub = True
    Made.__module__ = "props.K03"

    def maker(kind):
        def f(I, cls, *a, start_index=None, end_index=None):
            m = Made()
            m.kind, m.args, m.start, m.end = kind, a, start_index, end_index
            return m
        return f
    A = M.Attribute
    names = ("from_size_absolute", "from_family", "from_foreground_color", "from_foreground_alpha", "from_weight",
             "from_style")
    for n in names:
        I.models[getattr(A, n).__func__] = maker(n)
    U = z3.Function("pango_units", z3.RealSort(), z3.IntSort())
    RGB = [z3.Function(n, z3.StringSort(), z3.RealSort()) for n in ("red", "green", "blue")]

    def units(size):
        return mk(U(z3.ToReal(to_z3(size)) if z3.is_int(to_z3(size)) else to_z3(size)))

    def rgb(color):
        out = tuple(mk(g(to_z3(color))) for g in RGB)
        for v in out:
            ctx.assume(z3.And(to_z3(v) >= 0, to_z3(v) <= 1))
        return out

    def scaled(scale, start_index, end_index):
        return maker("scale")(None, None, scale, start_index=start_index, end_index=end_index)
    for g, n in ((units, "to_pango_units"), (rgb, "get_rgb_color"), (scaled, "attr_from_scale")):
        g.__module__ = "props.K03"
    ctx.contracts["render.backends.cairo.text.to_pango_units"] = units
    ctx.contracts["render.backends.cairo.utils.get_rgb_color"] = rgb
    ctx.contracts["render.backends.cairo.text.attr_from_scale"] = scaled
    a, b, scale = ctx.int("start"), ctx.int("end"), ctx.real("scale")
    got = I.call(M.style_to_attributes, (s, scale, a, b))
    ctx.reach("made")
    got = list(got)
    by = {m.kind: m for m in got}
    ctx.prove("one attribute of a kind", len(by) == len(got))
    ctx.prove("the whole range", z3.And(*[z3.And(mk_eq(m.start, a), mk_eq(m.end, b)) for m in got]))
    want = {"from_size_absolute", "from_family", "from_foreground_color", "from_weight", "from_style", "scale"}
    ctx.prove("all attributes", want <= set(by) and set(by) <= want | {"from_foreground_alpha"})
    ctx.prove("scale", mk_eq(by["scale"].args[0], scale))
    ctx.prove("size", mk_eq(by["from_size_absolute"].args[0], units(f["size"])))
    ctx.prove("font", mk_eq(by["from_family"].args[0], f["font"]))
    cs = by["from_foreground_color"].args
    near = lambda g, w: z3.And(to_z3(g) <= 65535 * to_z3(w) + 1, to_z3(g) >= 65535 * to_z3(w) - 1)
    ctx.prove("colour", z3.And(*[near(g, w) for g, w in zip(cs, rgb(f["color"]))]) if len(cs) == 3 else False)
    P = pangocffi
    for kind, v, on, off in (("from_weight", f["bold"], P.Weight.BOLD, P.Weight.NORMAL),
                             ("from_style", f["italic"], P.Style.ITALIC, P.Style.NORMAL)):
        w = by[kind].args[0]
        v = z3.BoolVal(False) if v is None else to_z3(v)
        ctx.prove(kind, z3.And(v, w == on) if w == on else z3.And(z3.Not(v), w == off))
    o = f["opacity"]
    if "from_foreground_alpha" not in by:
        ctx.prove("opacity", o is None or to_z3(o) == 1)
    else:
        g = by["from_foreground_alpha"].args[0]
        ctx.prove("opacity", z3.And(near(g, 1 if o is None else o), to_z3(g) >= 1))
