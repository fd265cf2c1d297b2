"""T04 text geometry."""
from pyvc.api import bounded, unit
from pyvc import decks, toks
import elsie
from elsie import TextStyle

CH = decks.CHAR
affine, apply = decks.affine, decks.apply


@bounded("texts", "random texts of 1-4 lines with nested sections; fixed, content-sized and scaled boxes; all "
                  "alignments; line boxes and inline boxes of every section; three layouts of each deck")
def texts(B):
    rng = B.rng
    for it in range(B.n(250, 4000)):
        tk = toks.rnd_tokens(rng, rng.randint(1, 10), styles=("emph", "tt", "big"), text="abc", depth=2)
        if not toks.plain(tk).strip():
            continue
        # rebuild as markup
        src = "".join(v if k == "text" else "\n" * v if k == "newline" else "~%s{" % v if k == "begin" else "}"
                      for k, v in tk)
        size = rng.choice([10, 20, 28])
        spacing = rng.choice([1.0, 1.2, 1.5])
        align = rng.choice(["left", "middle", "right"])
        big = rng.choice([size * 2, size])
        fit = rng.random() < 0.5
        kw = {}
        if fit or rng.random() < 0.5:
            kw["width"] = rng.choice([120, 300, 7])
        if fit or rng.random() < 0.5:
            kw["height"] = rng.choice([60, 200])
        if fit and rng.random() < 0.3:
            kw.pop(rng.choice(["width", "height"]))
        d = decks.deck(width=800, height=600)
        s = d.new_slide()
        b = s.box(x=rng.choice([0, 30]), y=rng.choice([0, 20]), padding=rng.choice([0, 5]), **kw)
        b.set_style("big", TextStyle(size=big))
        B.case((src, size, spacing, align, big, fit, kw))
        item = b.text(src, TextStyle(size=size, line_spacing=spacing, align=align), scale_to_fit=fit)
        # measured extents
        named = toks.named(tk)
        lines = [[]]
        for c, st in named:
            if c == "\n":
                lines.append([])
            else:
                sz = size
                for nm in st:
                    if nm == "big":
                        sz = big
                lines[-1].append(sz * CH)
        tw = max(sum(l) for l in lines)
        th = len(lines) * size * spacing
        secs = []
        cnt = {}
        for i, (k, v) in enumerate(tk):
            if k == "begin":
                cnt[v] = cnt.get(v, 0) + 1
                secs.append((i, v, cnt[v]))
        inl = []
        for i, v, n in secs:
            # text of the section on its first line
            dep, txt = 0, ""
            for k2, v2 in tk[i:]:
                if k2 == "begin":
                    dep += 1
                elif k2 == "end":
                    dep -= 1
                    if not dep:
                        break
                elif k2 == "text":
                    txt += v2
                else:
                    break
            if txt:
                inl.append((i, v, n, len(txt), item.inline_box(v, n)))
        lns = [(j, n, item.line_box(j, n)) for j in range(len(lines)) for n in (1, 2)]
        for rnd in range(3):
            page = decks.parse(decks.svgs(d)[0])
            x, y, w, h = decks.frect(b)
            if not fit:
                B.check(w >= tw - 1e-6 and h >= th - 1e-6, "the box is smaller than its text", rect=(x, y, w, h))
            sc = min(w / tw, h / th) if fit else 1
            top = y + (h - th * sc) / 2
            ax = {"left": x, "middle": x + w / 2, "right": x + w}[align]
            t = page.find(".//s:text", decks.NS)
            if t is None and sc <= 1e-5:
                continue  # no room at all
            m = affine(t.get("transform"))
            B.eq(apply(m, (float(t.get("x")), float(t.get("y")))), (ax, top + size * sc), "position of the text",
                 layout=rnd)
            B.eq((m[0], m[3]), (sc, sc), "scale of the text", layout=rnd)
            B.eq(t.get("text-anchor"), {"left": "start", "middle": "middle", "right": "end"}[align], "alignment")
            lh = th * sc / len(lines)
            for j, n, lb in lns:
                B.eq(decks.frect(lb), (x, top + lh * j, w, n * lh + 1), "line box %d+%d" % (j, n), layout=rnd)
            for i, v, n, ln, ib in inl:
                # line number and offset of the section
                pos = len(toks.flat(tk[:i] + [("end", None)] * opens(tk[:i]))[0])
                prefix = "".join(c for c, _ in named[:pos])
                lno = prefix.count("\n")
                col = len(prefix) - (prefix.rfind("\n") + 1)
                lw = sum(lines[lno])
                off = {"left": 0, "middle": -lw / 2, "right": -lw}[align]
                B.eq(decks.frect(ib), (ax + (off + sum(lines[lno][:col])) * sc, top + lno * lh,
                                       sum(lines[lno][col:col + ln]) * sc, lh + 1),
                     "inline box of %s #%d" % (v, n), layout=rnd)


def opens(tk):
    return sum(1 if k == "begin" else -1 if k == "end" else 0 for k, _ in tk)


@bounded("requests", "requested sizes of texts with and without own box sizes")
def requests(B):
    for lines in (["abc"], ["a", "", "abcd"], ["x"] * 7):
        for kw in ({}, {"width": 10}, {"height": 500}, {"width": 333, "height": 20}, {"width": "100%"}):
            for fit in (False, True):
                for pad in (0, 4):
                    B.case((lines, kw, fit, pad))
                    d = decks.deck(width=800, height=600)
                    b = d.new_slide().box(padding=pad, **kw)
                    b.text("\n".join(lines), TextStyle(size=20, line_spacing=1.5), scale_to_fit=fit)
                    decks.units(d)
                    tw, th = max(map(len, lines)) * 10, len(lines) * 30
                    ww, hh = kw.get("width"), kw.get("height")
                    wd = 800 if ww == "100%" else (ww or 0)
                    w = wd - 2 * pad if fit and ww is not None else max(wd - 2 * pad, tw)
                    h = (hh or 0) - 2 * pad if fit and hh is not None else max((hh or 0) - 2 * pad, th)
                    B.eq(decks.frect(b)[2:], (w, h), "size of a text box")


@bounded("rotation", "rotated texts turn about the centre of their box")
def rotation(B):
    for rot in (0, 30, -90, 180):
        for fit in (False, True):
            B.case((rot, fit))
            d = decks.deck(width=800, height=600)
            b = d.new_slide().box(x=100, y=50, width=200, height=80)
            b.text("abcd", scale_to_fit=fit, rotation=rot)
            t = decks.parse(decks.svgs(d)[0]).find(".//s:text", decks.NS)
            m = affine(t.get("transform"))
            s = min(200 / 56, 80 / 33.6) if fit else 1
            pos = apply(m, (float(t.get("x")), float(t.get("y"))))
            c = (200, 90)
            top = 50 + (80 - 33.6 * s) / 2 + 28 * s
            want = apply(affine("rotate(%s %s %s)" % (rot, c[0], c[1])), (200, top))
            B.eq(pos, want, "position of a rotated text")


@bounded("missing", "sections that do not exist are rejected")
def missing(B):
    d = decks.deck()
    it = d.new_slide().text("a ~emph{b} ~tt{c} ~emph{d}")
    for st, n in (("emph", 3), ("tt", 2), ("alert", 1), ("", 1)):
        B.case((st, n))
        B.raises(lambda: it.inline_box(st, n), "missing section")



# ------------------------------------------------------------------ proofs
class Backend:
    """the measurements of the backend (C02, K03)"""
    _pyvc_stub = True

    def __init__(self, h):
        self.h = h

    def compute_text_width(self, t, style, styles, id_index=None):
        return self.h.measured("w", t, style, styles, id_index)

    def compute_text_x(self, t, style, styles, id_index=None):
        return self.h.measured("x", t, style, styles, id_index)

    def compute_text_height(self, t, style, styles, id_index=None):
        from pyvc.core import Unsupported
        raise Unsupported("measured height")


class Line:
    """the line extracted around a token (T02)"""
    _pyvc_stub = True

    def __init__(self, i):
        self.i = i


class H:
    """a text item in a box with any content rectangle"""

    def __init__(self, ctx, boxes=False):
        import z3
        from pyvc.core import mk, to_z3
        from pyvc.interp import Interp
        from props import _draw as D, _toks as K
        self.ctx, self.D, self.K = ctx, D, K
        self.I = I = Interp(ctx)
        h = self

        class Text(D.Place):
            def __init__(self):
                D.Place.__init__(self, ctx)
                self.callbacks, self.asked, self.added = [], [], []
                self.width_definition = None if boxes or ctx.choose(2, "width") else "given"
                self.height_definition = None if boxes or ctx.choose(2, "height") else "given"

            def add_callback(self, f):
                self.callbacks.append(f)

            def ensure_width(self, v):
                self.asked.append(("w", v))

            def ensure_height(self, v):
                self.asked.append(("h", v))

            def add(self, **kw):
                self.added.append(kw)
                return D.Place(ctx)

            def place(self, rect):
                self.rect = rect
                for f in self.callbacks:
                    I.call(f, (rect,))
        self.slide = D.Slide(ctx)
        self.slide.slides = D.Slide(ctx)
        self.slide.slides.backend = Backend(self)
        self.layout = Text()
        self.box = D.X.bare_box(I, ctx, self.slide, D.X.Show(lambda s: s >= 1, 1), layout=self.layout)
        self.toks = K.Tokens(ctx)
        variant = ctx.choose(8, "variant") if boxes else None
        self.given = {6: "x", 7: "height"}.get(variant)
        self.fit = variant in (3, 4, 5) if boxes else bool(ctx.choose(2, "scale to fit"))
        self.rotation = None if boxes else D.opt(ctx, "rotation", lambda: ctx.real("angle"))
        self.style = TextStyle(align=("left", "middle", "right")[
            variant % 3 if boxes else ctx.choose(3, "align")])
        self.size, self.spacing = ctx.real("size"), ctx.real("spacing")
        self.style._size, self.style._line_spacing = self.size, self.spacing
        ctx.assume(D.real(self.size) > 0)
        ctx.assume(D.real(self.spacing) > 0)
        self.width = ctx.real("measured_width")
        ctx.assume(D.real(self.width) >= 0)
        self.qw, self.qx = (z3.Function("section_" + q, K.Z, D.R) for q in "wx")
        self.wanted_style = object()
        self.cut = []
        self.markup = D.text(ctx, "markup")

        def parse(text, *a, **kw):
            ctx.prove("the text is parsed", D.mk_eq(text, self.markup))
            return self.toks.given

        def get_style(self_, style, full_style=False):
            ctx.prove("the full style is used", style is self.wanted_style and full_style is True)
            return self.style

        def lines(t):
            k = K.is_prefix(t, self.toks)
            if k is None:
                from pyvc.core import Unsupported
                raise Unsupported("lines of another text")
            v = self.toks.lines(k)
            ctx.assume(v >= 1)
            return mk(v)

        def line(t, i):
            ctx.prove("the line is cut from the text", K.is_prefix(t, self.toks) is not None)
            l = Line(to_z3(i))
            self.cut.append(l.i)
            return l, mk(z3.Function("index_in_line", K.Z, K.Z)(l.i))
        for q, f in (("text.textparser.parse_text", parse), ("text.textparser.number_of_lines", lines),
                     ("text.textparser.extract_line", line), ("boxtree.box.Box.get_style", get_style),
                     ("text.stylecontainer.StyleContainer.get_style", get_style)):
            f.__module__ = "props.T04"
            ctx.contracts[q] = f

    def measured(self, what, t, style, styles, idx):
        import z3
        from pyvc.core import mk, to_z3
        ctx, D, K = self.ctx, self.D, self.K
        ctx.prove("measured in the style of the text", style is self.style and styles is self.box._styles)
        if isinstance(t, Line):
            ctx.prove("the section is measured on its line",
                      idx is not None and D.mk_eq(idx, z3.Function("index_in_line", K.Z, K.Z)(t.i)))
            return mk((self.qw if what == "w" else self.qx)(t.i))
        ctx.prove("the whole text is measured", K.is_prefix(t, self.toks) is not None and idx is None and what == "w")
        return self.width

    def text(self):
        kw = {}
        if self.rotation is not None:
            kw["rotation"] = self.rotation
        return self.I.call(self.box.text, (self.markup, self.wanted_style), dict(kw, scale_to_fit=self.fit))

    def rects(self):
        from elsie.utils.geom import Rect
        for j in range(2):
            v = [self.ctx.real("%s%d" % (nm, j)) for nm in ("left", "top", "width", "height")]
            for x in v[2:]:
                self.ctx.assume(self.D.real(x) >= 0)
            self.I.sites.append("layout%d" % j)
            self.layout.place(Rect(*v))
            yield self.D.real, [self.D.real(x) for x in v]

    def metrics(self, r):
        """scale, top and height of the laid out text"""
        import z3
        R = self.D.real
        tw, th = R(self.width), self.toks.lines() * R(self.size) * R(self.spacing)
        s = z3.RealVal(1)
        if self.fit:
            a, b = r[2] / tw, r[3] / th
            eps = z3.RealVal("0.00001")
            s = z3.If(z3.And(tw > eps, th > eps), z3.If(a < b, a, b), 1)
        self.ctx.assume(th > z3.RealVal("0.00001"))
        return s, r[1] + (r[3] - th * s) / 2, th * s

    def anchor(self, r):
        return {"left": r[0], "middle": r[0] + r[2] / 2, "right": r[0] + r[2]}[self.style.align]


class Context:
    """a rendering context that keeps the texts"""
    _pyvc_stub = True

    def __init__(self):
        self.drawn = []

    def draw_text(self, **kw):
        self.drawn.append(kw)


@unit("text: requested size, scale and place")
def u_text(ctx):
    from pyvc.values import mk_eq
    h = H(ctx)
    D, R = h.D, h.D.real
    item = h.text()
    ctx.prove("the text is one item of the box", len(h.box.children) == 1 and h.box.children[0] is item)
    l = h.layout
    want = []
    if not h.fit or l.width_definition is None:
        want.append(("w", R(h.width)))
    if not h.fit or l.height_definition is None:
        want.append(("h", h.toks.lines() * R(h.size) * R(h.spacing)))
    got = sorted(l.asked, key=lambda p: p[0] != "w")
    ctx.prove("the size of the text is requested unless the box defines it for a scaled text",
              [p[0] for p in got] == [p[0] for p in want])
    for (_, a), (_, b) in zip(got, want):
        ctx.prove("measured width and lines times line height", R(a) == b)
    for _, r in h.rects():
        c = Context()
        h.I.call(item.render, (c,))
        s, top, th = h.metrics(r)
        if not c.drawn:
            ctx.reach("no room")
            ctx.prove("only a text scaled to nothing is not drawn", s <= D.z3.RealVal("0.00001"))
            return
        ctx.reach("drawn")
        ctx.prove("drawn once", len(c.drawn) == 1)
        kw = c.drawn[0]
        ctx.prove("the text in its style", kw["parsed_text"] is h.toks.given and not h.toks.given.mutated
                  and kw["style"] is h.style and kw["styles"] is h.box._styles)
        ctx.prove("baseline of the first line", R(kw["y"]) == top + R(h.size) * s)
        ctx.prove("aligned horizontally", R(kw["x"]) == h.anchor(r))
        q = kw["rect"]
        D.eq_nums(ctx, "in the rectangle of the box", [q.x, q.y, q.width, q.height], [D.mk(v) for v in r])
        if h.fit:
            ctx.prove("the largest scale that fits", kw.get("scale") is not None and R(kw["scale"]) == s)
        else:
            ctx.prove("not scaled", kw.get("scale") is None or mk_eq(kw["scale"], 1))
        D.same(ctx, "rotation", kw.get("rotation"), h.rotation)


def boxed(h, kw, r, x, y, w, hh, given):
    """the box added last spans that rectangle"""
    from elsie.boxtree.lazy import LazyValue
    ctx, D, R = h.ctx, h.D, h.D.real

    def val(v, start, extent):
        if isinstance(v, LazyValue):
            return R(h.I.call(v.eval))
        if v == "fill" or v == "100%":
            return extent
        if v == "0":
            v = 0
        if v is None or isinstance(v, str):
            return None
        return R(v) + start if start is not None else R(v)
    for n, want, start, extent in (("x", x, r[0], None), ("y", y, r[1], None), ("width", w, None, r[2]),
                                   ("height", hh, None, r[3])):
        if n == given:
            continue
        v = val(kw.get(n), start, extent)
        ctx.prove(n + " of the box", v is not None and v == want)


def with_args(ctx, given):
    """arguments of the new box: its own win"""
    kw = {"p_left": 7}
    mark = ctx.real("given")
    if given:
        kw[given] = mark
    return given, kw, mark


def check_args(ctx, kw, given, mark):
    ctx.prove("arguments of the new box are passed on", kw.get("p_left") == 7)
    if given:
        ctx.prove("an explicit place wins", kw[given] is mark)


@unit("line boxes")
def u_lines(ctx):
    h = H(ctx, boxes=True)
    R = h.D.real
    item = h.text()
    given, args, mark = with_args(ctx, h.given)
    i, n = ctx.int("index"), 1
    kw = dict(args)
    if ctx.choose(2, "lines"):
        n = kw["n_lines"] = ctx.int("lines")
    b = h.I.call(item.line_box, (i,), kw)
    ctx.prove("one box is added", len(h.layout.added) == 1 and h.box.children[-1] is b)
    check_args(ctx, h.layout.added[0], given, mark)
    for _, r in h.rects():
        ctx.reach("line box")
        s, top, th = h.metrics(r)
        lh = R(h.size) * R(h.spacing) * s
        boxed(h, h.layout.added[0], r, r[0], top + R(i) * lh, r[2], R(n) * lh + 1, given)


@unit("inline boxes")
def u_inline(ctx):
    import z3
    from pyvc.core import mk, to_z3
    h = H(ctx, boxes=True)
    D, K, R, t = h.D, h.K, h.D.real, h.toks
    item = h.text()
    given, args, mark = with_args(ctx, h.given)
    name = ctx.str("name")
    nm = to_z3(name)
    t.base.fold("seen", K.Z, z3.IntVal(0), lambda k, G: G("seen").e + z3.If(
        z3.And(t.kind(k) == K.BEGIN, t.text(k) == nm), 1, 0))
    n = 1
    if ctx.choose(2, "which"):
        n = args["n_th"] = ctx.int("n_th")
        ctx.assume(to_z3(n) >= 1)
    try:
        b = h.I.call(item.inline_box, (name,), dict(args))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("not found")
        ctx.prove("only a missing section is rejected", to_z3(t.base.G("seen", t.n)) < to_z3(n))
        return
    ctx.prove("one box is added", len(h.layout.added) == 1 and h.box.children[-1] is b)
    check_args(ctx, h.layout.added[0], given, mark)
    ctx.prove("the line of a section is measured", len(h.cut) > 0)
    ii = h.cut[-1]
    ctx.prove("the section is one of the text", z3.And(ii >= 0, ii < to_z3(t.n)))
    t.base.at(ii)
    ctx.prove("the section has the style", z3.And(t.kind(ii) == K.BEGIN, t.text(ii) == nm))
    ctx.prove("the section is the n-th one of the style", to_z3(t.base.G("seen", ii)) == to_z3(n) - 1)
    for _, r in h.rects():
        ctx.reach("inline box")
        s, top, th = h.metrics(r)
        lh = R(h.size) * R(h.spacing) * s
        boxed(h, h.layout.added[0], r, h.anchor(r) + h.qx(ii) * s, top + lh * (t.lines(ii) - 1), h.qw(ii) * s, lh + 1,
              given)


@unit("text: drawn into SVG at its place and scale")
def u_svg(ctx):
    from elsie.utils.geom import Rect
    from pyvc.interp import Interp
    from props import _draw as D
    I = Interp(ctx)
    R = D.real
    c = D.svg_context(ctx)
    got = []

    def draw(xml, x, y, parsed_text, style, styles, transform=None, **kw):
        got.append((xml, x, y, parsed_text, style, styles, transform, kw))
    draw.__module__ = "props.T04"
    ctx.contracts["render.backends.svg.draw.draw_text"] = draw
    v = [ctx.real(n) for n in ("left", "top", "width", "height", "x", "y")]
    scale = D.opt(ctx, "scale", lambda: ctx.real("scale"))
    if scale is not None:
        ctx.assume(R(scale) > 0)
    rot = D.opt(ctx, "rotation", lambda: ctx.real("angle"))
    text, style, styles = [], TextStyle(), {}
    I.call(c.draw_text, (), dict(rect=Rect(*v[:4]), x=v[4], y=v[5], parsed_text=text, style=style, styles=styles,
                                 scale=scale, rotation=rot))
    ctx.reach("text")
    ctx.prove("the text is drawn once", len(got) == 1)
    xml, x, y, t, st, sts, tr, kw = got[0]
    ctx.prove("the text in its style", xml is c.xml and t is text and st is style and sts is styles)
    tr = D.read(ctx, "transform", D.transform, tr)
    s = None
    rots = []
    for f, a in tr:
        if f == "scale":
            ctx.prove("scaled once, before it is rotated", s is None and len(a) in (1, 2))
            s = [R(a[0]), R(a[-1])]
        else:
            ctx.prove("scaled once, before it is rotated", s is None)
            rots.append((f, a))
    if s is None:
        s = [D.z3.RealVal(1)] * 2
    for q in s:
        ctx.prove("the scale", q == (R(scale) if scale is not None else 1))
    ctx.prove("the place is the given one", D.z3.And(R(x) * s[0] == R(v[4]), R(y) * s[1] == R(v[5])))
    D.check_rotation(ctx, rots, rot, R(v[0]) + R(v[2]) / 2, R(v[1]) + R(v[3]) / 2)
