"""X02 text SVG."""
from pyvc.api import bounded, unit
from pyvc import decks, toks
import lxml.etree as et
from elsie import TextStyle
from elsie.utils.sxml import Xml
from elsie.render.backends.svg.draw import draw_text

XML_SPACE = "{http://www.w3.org/XML/1998/namespace}space"


def css(s):
    out = {}
    for p in (s or "").split(";"):
        if p.strip():
            k, v = p.split(":", 1)
            out[k.strip()] = v.strip()
    return out


def read(root):
    """Lines of (char, effective style) with the line offsets from an SVG text element"""
    out = []

    def rec(el, st):
        st = dict(st)
        if el.get("font-family"):
            st["font"] = el.get("font-family")
        if el.get("font-size"):
            st["size"] = float(el.get("font-size"))
        c = css(el.get("style"))
        if "fill" in c:
            st["color"] = c["fill"]
        if "fill-opacity" in c:
            st["opacity"] = float(c["fill-opacity"])
        if "font-weight" in c:
            st["bold"] = c["font-weight"] in ("bold", "700")
        if "font-style" in c:
            st["italic"] = c["font-style"] == "italic"
        if el.get("font-variant-numeric"):
            st["variant_numeric"] = el.get("font-variant-numeric")
        if el.get("dy") is not None:
            out.append(("line", float(el.get("x")), float(el.get("dy"))))
        for t in el.text or "":
            out.append((t, st))
        for ch in el:
            rec(ch, st)
            for t in ch.tail or "":
                out.append((t, st))
    rec(root, {"bold": False, "italic": False, "opacity": None})
    return out


PROPS = ("font", "size", "color", "bold", "italic", "opacity", "variant_numeric")


def expected(tk, style, styles, x, lost=True):
    act = [style]
    out = []
    first = True

    def eff():
        d = {"bold": False, "italic": False, "opacity": None}
        for s in act:
            if s is not None:
                for p in PROPS:
                    v = getattr(s, p)
                    if v is not None and (p != "variant_numeric" or s is not style or first or not lost):
                        d[p] = v
        return d
    for k, v in tk:
        if k == "text":
            e = eff()
            out += [(c if c != " " else "\u00a0", e) for c in v]
        elif k == "newline":
            first = False       # see the known finding "numbers"
            out.append(("line", x, style.size * style.line_spacing * v))
        elif k == "begin":
            s = styles.get(v)
            if s is None:
                if not v.startswith("#"):
                    return None
            else:
                prio = [a.priority for a in act if a is not None][-1]
                if prio > s.priority:
                    s = None
            act.append(s)
        else:
            act.pop()
    return out


def rnd_styles(rng):
    st = {}
    for n in ("a", "b", "c", "d", "#e"):
        kw = {}
        for p, vs in (("font", ["f1", "f2"]), ("size", [5, 9.5]), ("color", ["red", "blue"]), ("bold", [True, False]),
                      ("italic", [True, False]), ("opacity", [0.0, 0.5]), ("variant_numeric", ["ordinal", "tabular-nums"])):
            if rng.random() < 0.4:
                kw[p] = rng.choice(vs)
        st[n] = TextStyle(priority=rng.choice([0, 0, 0, 1, 2, -1]), **kw)
    return st


@bounded("texts", "random balanced texts over 6 section names (one dummy, one dummy with a style) with random styles and "
                  "priorities, some in up to 7 nested sections; per-character style and line breaks of the parsed SVG")
def texts(B):
    for _ in range(B.n(3000, 40000)):
        rng = B.rng
        tk = toks.rnd_tokens(rng, rng.randint(1, 14), styles=("a", "b", "c", "d", "#x", "#e"))
        styles = rnd_styles(rng)
        if rng.random() < 0.15:     # several refused sections in one that has priority
            styles["a"] = TextStyle(bold=True, priority=2)
            n = rng.randint(2, 6)
            tk = [("begin", "a")] + [("begin", rng.choice("bcd")) for _ in range(n)] + tk + [("end", None)] * (n + 1)
        base = TextStyle(font="F", size=10, color="black", align=rng.choice(["left", "middle", "right"]),
                         line_spacing=1.25, priority=rng.choice([0, 0, 1]),
                         variant_numeric=rng.choice([None, "ordinal"]))
        B.case((tk, {n: (s.priority,) + tuple(getattr(s, p) for p in PROPS) for n, s in styles.items()}, base.priority))
        xml = Xml()
        draw_text(xml, 3, 4, tk, base, styles)
        s = xml.to_string()
        try:
            root = et.fromstring(s)
        except et.XMLSyntaxError as e:
            B.fail("not well-formed: %s" % e, tokens=tk, xml=s)
        B.eq((root.tag, float(root.get("x")), float(root.get("y"))), ("text", 3, 4), "position")
        want = expected(tk, base, styles, 3)
        B.eq(read(root), want, "characters, lines and styles", tokens=tk, xml=s)
        for el in root.iter("tspan"):
            if len(el) == 0 and (el.text or "").strip() != (el.text or ""):
                B.check(False if el.get(XML_SPACE) is None and " " in el.text else True, "spaces")


@bounded("numbers", "the numeric variant of the text's own style on all of its lines")
def numbers(B):
    for tk in ([("text", "1"), ("newline", 1), ("text", "2")],):
        base = TextStyle(font="F", size=10, color="black", align="left", line_spacing=1.25, variant_numeric="ordinal")
        B.case(tk)
        xml = Xml()
        draw_text(xml, 3, 4, tk, base, {})
        B.eq(read(et.fromstring(xml.to_string())), expected(tk, base, {}, 3, lost=False),
             "numeric variant after a line break", key="numbers", tokens=tk)


@bounded("unknown", "undefined section names are rejected at any depth")
def unknown(B):
    base = TextStyle(font="F", size=10, color="black", align="left", line_spacing=1)
    for name in ("zz", "", "x#", "default2"):
        for wrap in ([], [("begin", "a")], [("begin", "#d")]):
            tk = wrap + [("text", "q"), ("begin", name), ("text", "r"), ("end", None)] + [("end", None)] * len(wrap)
            B.case(tk)
            B.raises(lambda: draw_text(Xml(), 0, 0, tk, base, {"a": TextStyle(priority=5)}), "unknown style", tokens=tk)


@bounded("ids", "the measured element is the whole text or the chosen section")
def ids(B):
    base = TextStyle(font="F", size=10, color="black", align="left", line_spacing=1)
    for _ in range(B.n(500, 5000)):
        tk = toks.rnd_tokens(B.rng, B.rng.randint(1, 10), styles=("a", "b"), newline=False)
        st = {"a": TextStyle(), "b": TextStyle(bold=True)}
        for i in [None] + [j for j, (k, _) in enumerate(tk) if k == "begin"]:
            B.case((tk, i))
            xml = Xml()
            draw_text(xml, 0, 0, tk, base, st, id="target", id_index=i)
            root = et.fromstring(xml.to_string())
            els = [e for e in root.iter() if e.get("id") == "target"]
            B.eq(len(els), 1, "number of marked elements", tokens=tk)
            if i is None:
                want = toks.plain(tk)
            else:
                dep, want = 0, ""
                for k, v in tk[i:]:
                    if k == "begin":
                        dep += 1
                    elif k == "end":
                        dep -= 1
                        if not dep:
                            break
                    else:
                        want += v
            B.eq("".join(els[0].itertext()), want.replace(" ", "\u00a0"), "text of the marked element", tokens=tk)


# ------------------------------------------------------------------ proofs
class Page:
    """What an XML writer has written of a text, as terms. Elements: the open elements, each with the font and the
    numeric variant its text has (any one property of a font stands for all of them: a style sets it or not). Shown:
    the characters with these, and the starts of lines."""

    def __init__(self, ctx):
        import z3
        from pyvc.core import SNum, SStr, mk, to_z3
        from pyvc.values import Measure, NotApplicable, RefKind, SOpt
        from elsie import TextStyle
        self.ctx = ctx
        Z, R, S, B_ = z3.IntSort(), z3.RealSort(), z3.StringSort(), z3.BoolSort()
        self.Z, self.R, self.S, self.B = Z, R, S, B_
        REF = z3.DeclareSort("Style")
        self.REF = REF
        A = z3.Datatype("Sections")
        A.declare("nil")
        A.declare("sec", ("rest", A), ("deep", Z), ("some", B_), ("prio", R), ("font", Z), ("first", Z), ("later", Z))
        self.A = A = A.create()
        E = z3.Datatype("Elements")
        E.declare("none")
        E.declare("el", ("out", E), ("tag", S), ("efont", Z), ("enum", Z))
        self.E = E = E.create()
        T = z3.Datatype("Shown")
        T.declare("empty")
        T.declare("chars", ("before", T), ("text", S), ("cfont", Z), ("cnum", Z))
        T.declare("setx", ("before_x", T), ("xval", R))
        T.declare("setdy", ("before_dy", T), ("dyval", R))
        self.T = T = T.create()
        fn = lambda name, r: z3.Function(name, REF, r)
        self.PR = fn("priority", R)
        self.font_set, self.font_val = fn("sets_font", B_), fn("font_of", Z)
        self.num_set, self.num_val = fn("sets_numbers", B_), fn("numbers_of", Z)
        self.F = lambda old, r: z3.If(self.font_set(r), self.font_val(r), old)
        self.N = lambda old, r: z3.If(self.num_set(r), self.num_val(r), old)
        self.style = z3.Const("own_style", REF)
        self.font0, self.num0 = z3.Int("font_around"), z3.Int("numbers_around")

        page = self

        class Style(TextStyle):
            """a style: all that matters is which"""
            _pyvc_stub = True
            __slots__ = ("e",)

            def __init__(self, e):
                object.__setattr__(self, "e", e)
            priority = property(lambda self: mk(page.PR(self.e)))
            size = property(lambda self: page.size)
            line_spacing = property(lambda self: page.spacing)
            align = property(lambda self: page.align)
        Style.__module__ = "props.X02"
        self.Style = Style
        self.size, self.spacing = ctx.real("size"), ctx.real("line_spacing")
        self.align = "left"
        ctx.optional_refs = True
        RefKind("style", REF, lambda v: (v.e, ()) if isinstance(v, Style) else None, lambda e, x: Style(e))
        NA = NotApplicable

        def els(get, x):
            e = to_z3(get("elements"))
            if x[0] == "element":
                return E.el(e, x[1], z3.If(E.is_el(e), E.efont(e), self.font0), z3.If(E.is_el(e), E.enum(e), self.num0))
            top = lambda f, n: E.el(E.out(e), E.tag(e), f, n)
            if x[0] == "font":
                return top(self.F(E.efont(e), x[1]), E.enum(e))
            if x[0] == "numbers":
                return top(E.efont(e), self.N(E.enum(e), x[1]))
            return E.out(e) if x[0] == "close" else e

        def fine(get, x):
            e, f, o = (to_z3(get(n)) for n in ("elements", "fine", "tag"))
            if x[0] == "close":
                return z3.And(f, E.is_el(e), True if x[1] is None else E.tag(e) == x[1])
            if x[0] == "text":
                return z3.And(f, E.is_el(e))
            return z3.And(f, o) if x[0] in ("set", "font", "numbers") else f

        def tag(get, x):
            o = to_z3(get("tag"))
            return z3.BoolVal(True) if x[0] == "element" else z3.BoolVal(False) if x[0] in ("text", "close") else o

        def shown(get, x):
            t, e = to_z3(get("shown")), to_z3(get("elements"))
            if x[0] == "text":
                return T.chars(t, x[1], E.efont(e), E.enum(e))
            if x[0] == "set" and x[1] in ("x", "dy"):
                return z3.If(z3.And(E.is_el(e), z3.Not(E.is_el(E.out(e)))), t,
                             self.setx(t, x[2]) if x[1] == "x" else T.setdy(t, x[2]))
            return t

        def of_text(name):
            def f(get, x):
                e, v = to_z3(get("elements")), to_z3(get("text " + name))
                if x[0] == "set" and x[1] == name:
                    return z3.If(z3.And(E.is_el(e), z3.Not(E.is_el(E.out(e)))), x[2], v)
                return v
            return f

        def on_events(f):
            def g(get, x):
                if type(x) is not tuple or not x or x[0] not in EVENTS:
                    raise NA()
                return z3.simplify(f(get, x))
            return g
        m = lambda name, sort, init, f: ctx.measures.__setitem__(name, Measure(name, sort, init, on_events(f)))
        m("elements", E, E.none, els)
        m("fine", B_, z3.BoolVal(True), fine)
        m("tag", B_, z3.BoolVal(False), tag)
        m("shown", T, T.empty, shown)
        for name in ("x", "y", "dy"):
            m("text " + name, R, z3.RealVal(-7), of_text(name))
        m("text text-anchor", S, z3.StringVal("?"), of_text("text-anchor"))

        def act(get, x):
            if x is None:
                some, r = False, None
            elif isinstance(x, Style):
                some, r = True, x.e
            elif isinstance(x, SOpt) and isinstance(x.val, Style):
                some, r = z3.Not(x.none), x.val.e
            else:
                raise NA()
            return self.section(to_z3(get("sections")), some, r)
        ctx.measures["sections"] = Measure("sections", A, A.nil, act)

    def setx(self, t, v):
        """x and dy of a line start in any order"""
        import z3
        T = self.T
        return z3.If(T.is_setdy(t), T.setdy(T.setx(T.before_dy(t), v), T.dyval(t)), T.setx(t, v))

    def section(self, rest, some, r):
        """one more section (some: with a style r that counts)"""
        import z3
        A = self.A
        bottom = z3.Not(A.is_sec(rest))
        up = lambda f, b: z3.If(bottom, b, f(rest))
        font, first, later = up(A.font, self.F(self.font0, self.style)), up(A.first, self.num0), up(A.later, self.num0)
        if r is None:
            r = z3.Const("no_style", self.REF)
        some = z3.BoolVal(some) if isinstance(some, bool) else some
        return z3.simplify(A.sec(
            rest, z3.If(bottom, 0, A.deep(rest) + 1), z3.Or(some, z3.And(z3.Not(bottom), A.some(rest))), z3.If(some, self.PR(r), up(A.prio, z3.RealVal(0))),
            z3.If(some, self.F(font, r), font), z3.If(some, self.N(first, r), first),
            z3.If(some, z3.If(bottom, later, self.N(later, r)), later)))

    def open_elements(self, a, later):
        """the elements open inside the sections a (later: after the first line break); with the defining equation"""
        import z3
        A, E = self.A, self.E
        f = z3.Function("elements_of", A, self.B, E)
        text = E.el(E.none, z3.StringVal("text"), self.F(self.font0, self.style), self.num0)
        step = lambda a: E.el(f(A.rest(a), later), z3.StringVal("tspan"), A.font(a), z3.If(later, A.later(a), A.first(a)))
        for x in (a, A.rest(a)):
            self.ctx.assume(f(x, later) == z3.If(A.is_sec(x), step(x), text))
        return f(a, later)

    def sound(self, a):
        """the depths in a are right; with the defining equations"""
        import z3
        A = self.A
        f = z3.Function("sound", A, self.B)
        for x in (a, A.rest(a)):
            r = A.rest(x)
            self.ctx.assume(f(x) == z3.Implies(A.is_sec(x), z3.And(
                f(r), z3.Or(z3.Not(A.is_sec(r)), A.some(r)), A.deep(x) == z3.If(A.is_sec(r), A.deep(r) + 1, 0))))
        self.ctx.assume(z3.Implies(A.is_sec(a), z3.Implies(f(a), A.deep(a) >= 0)))
        return f(a)


EVENTS = ("element", "set", "font", "numbers", "text", "close", "other")


class Writer:
    """the XML writer (X01): its calls are logged"""
    _pyvc_stub = True

    def __init__(self):
        from pyvc.values import VList
        self.log = VList(tag="log")

    def put(self, *x):
        from pyvc.core import cur
        cur().interp.list_method(self.log, "append", (x,), {})

    def element(self, name):
        from pyvc.core import to_z3
        self.put("element", to_z3(name))

    def set(self, name, value, escape=True):
        import z3
        from pyvc.core import Unsupported, to_z3
        if name in ("x", "y", "dy"):
            v = to_z3(value)
            self.put("set", name, z3.ToReal(v) if z3.is_int(v) else v)
        elif name == "text-anchor":
            self.put("set", name, to_z3(value))
        elif name in ("xml:space", "id", "transform"):
            self.put("set", name, None)
        else:
            raise Unsupported("attribute %s" % name)

    def text(self, text):
        from pyvc.core import to_z3
        self.put("text", to_z3(text))

    def close(self, text=None):
        from pyvc.core import to_z3
        self.put("close", None if text is None else to_z3(text))


class Named:
    """any table of styles"""
    _pyvc_stub = True

    def __init__(self, page):
        import z3
        self.page = page
        self.HAS = z3.Function("defined", page.S, page.B)
        self.REFS = z3.Function("style_named", page.S, page.REF)

    def _pyvc_contains(self, name):
        from pyvc.core import mk, to_z3
        return mk(self.HAS(to_z3(name)))

    def get(self, name, default=None):
        from pyvc.core import to_z3
        n = to_z3(name)
        return self.page.Style(self.REFS(n)) if self.page.ctx.branch(self.HAS(n)) else default

    def _pyvc_getitem(self, name):
        from pyvc.core import to_z3
        from pyvc.values import mark
        n = to_z3(name)
        if not self.page.ctx.branch(self.HAS(n)):
            raise mark(KeyError(name))
        return self.page.Style(self.REFS(n))


for cls in (Writer, Named):
    cls.__module__ = "props.X02"


def reading(ctx, t, p, named, x, pitch):
    """what a text shows, token by token"""
    import z3
    from pyvc.core import to_z3
    from props import _toks as K
    A, T = p.A, p.T
    b = t.base
    g = lambda G, n: to_z3(G(n))

    def sections(k, G):
        a = g(G, "sections")
        r = named.REFS(t.text(k))
        some = z3.And(named.HAS(t.text(k)), A.prio(a) <= p.PR(r))
        return z3.If(t.kind(k) == K.BEGIN, p.section(a, some, r), z3.If(t.kind(k) == K.END, A.rest(a), a))
    own = p.section(A.nil, True, p.style)
    b.fold("sections", A, own, sections)
    b.fold("broken", p.B, z3.BoolVal(False), lambda k, G: z3.Or(g(G, "broken"), t.kind(k) == K.NEWLINE))
    b.fold("shown", T, T.empty, lambda k, G: z3.If(t.kind(k) == K.TEXT, T.chars(
        g(G, "shown"), t.text(k), A.font(g(G, "sections")),
        z3.If(g(G, "broken"), A.later(g(G, "sections")), A.first(g(G, "sections")))),
        z3.If(t.kind(k) == K.NEWLINE, T.setdy(p.setx(g(G, "shown"), x), pitch * z3.ToReal(t.count(k))), g(G, "shown"))))
    b.fold("bad", p.B, z3.BoolVal(False), lambda k, G: z3.Or(g(G, "bad"), z3.And(
        t.kind(k) == K.BEGIN, z3.Not(named.HAS(t.text(k))), z3.Not(z3.PrefixOf(z3.StringVal("#"), t.text(k))))))

    def lemma(k):
        a = to_z3(b.G("sections", k))
        old(k)
        return z3.And(A.is_sec(a), p.sound(a), A.some(a), A.deep(a) == to_z3(b.G("open", k)))
    old = t.facts
    b.induct("a section for every open one", lemma)

    def facts(k):
        old(k)
        ctx.assume(lemma(k))
        ctx.assume(lemma(k + 1))
    t.facts = facts


def writing(ctx, t, p):
    """loop invariants: what was written is what was read"""
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import num
    b0 = t.base

    def inv(view, x, bases):
        out = []
        if x is None:
            return out
        comps = [("%s%s" % (key, comp), comp, v) for key, d in view.items() for comp, v in d.items()]
        for b in bases:
            if b is b0:
                a = to_z3(b.G("sections", x))
                els = p.open_elements(a, to_z3(b.G("broken", x)))
                for lab, comp, v in comps:
                    if comp.endswith("m:elements"):
                        out.append((lab + "==elements of the sections", v == els))
                    elif not comp and num(v):
                        out.append((lab + "==priority", core_real(v) == p.A.prio(a)))
            elif "sections" in b.folds:
                k = ctx.cur_k.get(b0.label)
                S = lambda j: to_z3(b.G("sections", j))

                def length(j):
                    return z3.And((j > 0) == p.A.is_sec(S(j)), z3.Implies(j > 0, p.A.deep(S(j)) == j - 1))
                if not getattr(b, "counted", False):
                    b.counted = True
                    b.induct("the depth of a list of sections", length)
                for j in (x - 1, x, x + 1, b.n - x - 1, b.n - x, b.n - x + 1):
                    j = z3.simplify(j)
                    b.at(j)
                    ctx.assume(z3.Implies(z3.And(j >= 0, j <= b.n), length(j)))
                some = lambda a: z3.And(p.A.is_sec(a), p.A.some(a))
                out.append(("some style in %s" % b.label, some(S(x)) == some(S(b.n))))
                out.append(("priority of %s the same" % b.label, p.A.prio(S(x)) == p.A.prio(S(b.n))))
                if k is None:
                    k = to_z3(b0.n)
                br = to_z3(b0.G("broken", k))
                for lab, comp, v in comps:
                    if comp.endswith("m:elements"):
                        out.append((lab + "==elements left", v == p.open_elements(S(z3.simplify(b.n - x)), br)))
                        out.append((lab + "==elements again", v == p.open_elements(S(x), z3.BoolVal(True))))
                    elif comp.endswith("m:shown"):
                        out.append((lab + "==line started", v == z3.If(
                            x > 0, to_z3(b0.G("shown", k + 1)), to_z3(b0.G("shown", k)))))
        return out
    ctx.invariants.append(inv)


def core_real(v):
    import z3
    from pyvc.core import to_z3
    v = to_z3(v)
    return z3.ToReal(v) if z3.is_int(v) else v


@unit("the text element: characters, lines and styles of every text", budget=300, functions=["draw_text"])
def u_text(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from pyvc.values import measure_states, mk_eq
    from props import _toks as K
    I, t = Interp(ctx), K.Tokens(ctx)
    p = Page(ctx)
    named, xml = Named(p), Writer()
    x, y = ctx.real("x"), ctx.real("y")
    K.balanced(ctx, t)
    reading(ctx, t, p, named, to_z3(x), to_z3(p.size) * to_z3(p.spacing))
    writing(ctx, t, p)

    def font(xml, style):
        xml.put("font", style.e)

    def numbers(xml, style):
        xml.put("numbers", style.e)
    for f, n in ((font, "set_font_from_style"), (numbers, "set_numbers_from_style")):
        f.__module__ = "props.X02"
        ctx.contracts["render.backends.svg.draw." + n] = f
    b = t.base
    ended = None
    try:
        I.call(draw_text, (xml, x, y, t.given, p.Style(p.style), named))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("rejected")
        k = ctx.cur_k.get(b.label)
        ctx.prove("only undefined names are rejected", k is not None and to_z3(b.G("bad", k + 1)))
        return
    ctx.reach("drawn")
    st = measure_states(xml.log)
    ctx.prove("undefined names are rejected", z3.Not(to_z3(b.G("bad", t.n))))
    ctx.prove("well nested elements", to_z3(st["fine"]))
    ctx.prove("every element is closed", z3.And(to_z3(st["elements"]) == p.E.none))
    ctx.prove("characters, lines and styles", mk_eq(st["shown"], b.G("shown", t.n)))
    ctx.prove("position", z3.And(mk_eq(st["text x"], x), mk_eq(st["text y"], y), to_z3(st["text dy"]) == -7))
    ctx.prove("anchor", mk_eq(st["text text-anchor"], {"left": "start", "middle": "middle", "right": "end"}[p.align]))


@unit("the alignment of the text element", functions=["draw_text"])
def u_anchor(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from pyvc.values import measure_states, mk_eq
    I = Interp(ctx)
    p = Page(ctx)
    xml = Writer()
    x, y = ctx.real("x"), ctx.real("y")
    for n in ("set_font_from_style", "set_numbers_from_style"):
        def nothing(xml, style):
            pass
        nothing.__module__ = "props.X02"
        ctx.contracts["render.backends.svg.draw." + n] = nothing
    p.align = ("left", "middle", "right")[ctx.choose(3, "align")]
    I.call(draw_text, (xml, x, y, [("text", ctx.str("content"))], p.Style(p.style), Named(p)))
    ctx.reach("drawn")
    st = measure_states(xml.log)
    ctx.prove("anchor", mk_eq(st["text text-anchor"], {"left": "start", "middle": "middle", "right": "end"}[p.align]))
    ctx.prove("position", z3.And(mk_eq(st["text x"], x), mk_eq(st["text y"], y)))


class Attributes:
    """the attributes of the open element"""
    _pyvc_stub = True

    def __init__(self):
        self.got = []

    def set(self, name, value, escape=True):
        self.got.append((name, value))


Attributes.__module__ = "props.X02"


def declarations(text):
    """[(name, parts of the value)] of CSS text"""
    from pyvc.core import SStr
    out, cur = [], []
    for q in (text.parts if isinstance(text, SStr) else [text]):
        if not isinstance(q, str):
            cur.append(q)
            continue
        bits = q.split(";")
        for i, x in enumerate(bits):
            if i:
                out.append(cur)
                cur = []
            cur.append(x)
    out.append(cur)
    res = {}
    for d in out:
        d = [x for x in d if not isinstance(x, str) or x.strip()]
        if not d:
            continue
        name, _, v = d[0].partition(":")
        v = [v.strip()] + d[1:]
        v = [x.strip() if isinstance(x, str) else x for x in v]
        res.setdefault(name.strip(), []).append([x for x in v if not isinstance(x, str) or x])
    return res


@unit("attributes of a style: every property it sets, and no other", functions=[
    "set_font_from_style", "set_numbers_from_style"])
def u_attributes(ctx):
    import z3
    from pyvc.core import SStr, to_z3
    from pyvc.interp import Interp
    from props import _style as Y
    from elsie.render.backends.svg import draw as D
    I = Interp(ctx)
    at = Y.slots()
    s = Y.forked_style(ctx, at, "style")
    f = Y.fields(s, at)
    a, b = Attributes(), Attributes()
    I.call(D.set_font_from_style, (a, s))
    I.call(D.set_numbers_from_style, (b, s))
    ctx.reach("set")
    got = dict(a.got)
    ctx.prove("attributes are set once", len(got) == len(a.got) and len(b.got) <= 1)
    same = lambda v, w: to_z3(v) == to_z3(w)
    for name, v in (("font-family", f["font"]), ("font-size", f["size"])):
        ctx.prove(name, v is None and name not in got or name in got and v is not None and same(got[name], v))
    css = declarations(got.pop("style", ""))
    ctx.prove("declarations are unique", all(len(v) == 1 for v in css.values()))
    ctx.prove("no other attribute", set(got) <= {"font-family", "font-size"})
    for name, v in (("fill", f["color"]), ("fill-opacity", f["opacity"])):
        if v is None:
            ctx.prove(name, name not in css)
        else:
            ctx.prove(name, name in css and len(css[name][0]) == 1 and same_text(css[name][0][0], v))
    for name, v, words in (("font-weight", f["bold"], ("bold", "normal")), ("font-style", f["italic"], ("italic", "normal"))):
        if v is None:
            ctx.prove(name, name not in css)
        else:
            ctx.prove(name, name in css and css[name][0] in ([words[0]], [words[1]]) and
                      (to_z3(v) if css[name][0] == [words[0]] else z3.Not(to_z3(v))))
    ctx.prove("no other declaration", set(css) <= {"fill", "fill-opacity", "font-weight", "font-style"})
    v = f["variant_numeric"]
    if v is None:
        ctx.prove("numbers", not b.got)
    else:
        ctx.prove("numbers", len(b.got) == 1 and b.got[0][0] == "font-variant-numeric" and same(b.got[0][1], v))


def same_text(part, v):
    """the part of a text is v, written out"""
    from pyvc.core import SNum, SStr, to_z3
    if isinstance(v, SNum):
        return isinstance(part, SNum) and part.is_int == v.is_int and to_z3(part) == to_z3(v)
    return not isinstance(part, SNum) and (part if not isinstance(part, str) else to_z3(part)) == to_z3(v)
