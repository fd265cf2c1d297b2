"""R02 several slides per page."""
import os

from pyvc.api import bounded, unit
from pyvc import decks


def marks(svg):
    """(mark, x, y) of every grouped slide, and the size of the page."""
    root = decks.parse(svg)
    res = []

    def go(e, m):
        if e.get("transform"):
            t = decks.affine(e.get("transform"))
            m = tuple_mul(m, t)
        if e.tag == decks.SVG + "rect" and "fill:mark" in (e.get("style") or ""):
            res.append((decks.style_of(e)["fill"],) + decks.apply(m, (0, 0)) + (m[0], m[3]))
        for c in e:
            go(c, m)
    go(root, (1, 0, 0, 1, 0, 0))
    return res, (float(root.get("width")), float(root.get("height")))


def tuple_mul(p, q):
    return (p[0] * q[0] + p[2] * q[1], p[1] * q[0] + p[3] * q[1], p[0] * q[2] + p[2] * q[3],
            p[1] * q[2] + p[3] * q[3], p[0] * q[4] + p[2] * q[5] + p[4], p[1] * q[4] + p[3] * q[5] + p[5])


@bounded("grids", "1-9 slides with 1-3 fragments each, grids of 1-4 columns and rows, slide sizes, selections: marks of "
                  "every page against the reading-order rule; page sizes; export of the grouped pages")
def grids(B):
    rng = B.rng
    for it in range(B.n(200, 3000)):
        w, h = rng.choice([100, 640]), rng.choice([80, 333])
        C, R = rng.randint(1, 4), rng.randint(1, 4)
        d = decks.deck(width=w, height=h)
        n = 0
        slides = []
        for i in range(rng.randint(1, 9)):
            s = d.new_slide()
            slides.append(s.slide)
            f = rng.randint(1, 3)
            for k in range(1, f + 1):
                s.box(show=k, x=0, y=0, width=5, height=5).rect(bg_color="mark-%d-%d" % (i, k))
        sel = rng.choice([None, None, rng.sample(slides, rng.randint(1, len(slides)))])
        B.case((w, h, C, R, len(slides), sel and len(sel)))
        seq = []
        for u in decks.units(d, select_slides=sel):
            seq.append(marks(u.get_svg())[0][0][0])
        pages = decks.svgs(d, slides_per_page=(C, R), select_slides=sel)
        if C * R == 1:
            B.eq(pages, decks.svgs(d, select_slides=sel), "grid of one slide")
            continue
        B.eq(len(pages), -(-len(seq) // (C * R)), "number of pages")
        for k, p in enumerate(pages):
            got, size = marks(p)
            B.eq(size, (w * C, h * R), "size of a page")
            want = [(m, (j % C) * w, (j // C) * h, 1, 1) for j, m in enumerate(seq[k * C * R:(k + 1) * C * R])]
            B.eq(got, want, "slides on page %d" % k)


@bounded("pdfs", "included PDF pages keep their place among the grouped slides, in units and in the merged document")
def pdfs(B):
    rng = B.rng
    pdf = os.path.join(decks.fresh_dir(), "x.pdf")
    from PyPDF2 import PdfFileWriter
    for it in range(B.n(60, 600)):
        d = decks.deck(width=100, height=80)
        seq = []
        for i in range(rng.randint(1, 8)):
            if rng.random() < 0.3:
                f = os.path.join(decks.fresh_dir(), "e.pdf")
                wr = PdfFileWriter()
                wr.addBlankPage(width=11 + i, height=7)
                with open(f, "wb") as fh:
                    wr.write(fh)
                d.add_pdf(f)
                seq.append(f)
            else:
                d.new_slide().box(x=0, y=0, width=5, height=5).rect(bg_color="mark-%d" % i)
                seq.append("mark-%d" % i)
        C, R = rng.choice([(2, 1), (1, 2), (2, 2), (3, 1), (1, 1)])
        B.case(([("pdf" if "/" in s else s) for s in seq], C, R))
        got = []
        for u in decks.units(d, slides_per_page=(C, R)):
            if u.get_svg() is None:
                got.append(u.export(d.fs_cache, "pdf"))
            else:
                ms, size = marks(u.get_svg())
                B.check(len(ms) <= C * R, "too many slides on a page")
                for j, m in enumerate(ms):
                    B.eq(m[1:3], ((j % C) * 100, (j // C) * 80), "place of a slide")
                    got.append(m[0])
        B.eq(got, seq, "order of slides and included pages")


@bounded("reject", "wrong grids")
def reject(B):
    d = decks.deck()
    d.new_slide()
    for g in ((1,), (1, 2, 3), ("2", 2), (2, 2.5), (0, 2), (2, 0), (-1, 2), (None, 1)):
        B.case(g)
        B.raises(lambda: decks.units(d, slides_per_page=g), "wrong grid")


# ------------------------------------------------------------------ proofs
class Page:
    """markup under construction by the contract of Xml (X01): the slides on the page, in order, with their places"""
    _pyvc_stub = True

    def __init__(self, run, items, state=(0, (), False)):
        self.run, self.items = run, items
        self.depth, self.names, self.closed = state
        self.group = None       # the element inside the page

    def state(self):
        return self.depth, self.names, self.closed

    def prog(self, what):
        from pyvc.values import mark
        raise mark(AssertionError(what))

    def element(self, name):
        r = self.run
        r.ctx.prove("one page per document", not self.closed)
        if self.depth == 0:
            r.ctx.prove("a page is an svg document", name == "svg")
            self.depth = 1
        elif self.depth == 1:
            self.group = [name, {}, [], True]
            self.depth = 2
        else:
            r.gap("nested elements")

    def set(self, name, value, escape=True):
        from props import _draw as D
        r = self.run
        if self.depth == 1 and self.group is None:
            if name in ("width", "height"):
                want = (r.w * r.C) if name == "width" else (r.h * r.R)
                r.ctx.prove("size of a page", D.real(D.number(value)) == D.real(want))
            self.names = tuple(sorted(set(self.names) | {name}))
        elif self.depth == 2 and self.group[3]:
            self.group[1][name] = value
        else:
            self.prog("attribute outside a start tag")

    def text(self, t):
        self.run.gap("text")

    def raw_text(self, t):
        if self.depth != 2:
            self.run.gap("markup outside a group")
        self.group[3] = False
        self.group[2].append(t)

    def close(self, name=None):
        r = self.run
        if self.depth == 2:
            if name not in (None, self.group[0]):
                self.prog("unbalanced element")
            g, self.group, self.depth = self.group, None, 1
            r.I.list_method(self.items, "append", (Put(g),), {})
        elif self.depth == 1:
            if name not in (None, "svg"):
                self.prog("unbalanced element")
            self.depth, self.closed = 0, True
        else:
            self.prog("unbalanced element")

    def to_string(self):
        from pyvc.values import measure_states
        r = self.run
        if self.depth:
            self.prog("open elements")
        r.ctx.prove("a page is finished", self.closed)
        r.ctx.prove("a page is an SVG document of a given size",
                    {"xmlns", "width", "height"} <= set(self.names))
        return Doc(measure_states(self.items)["page"])


class Put:
    """a group on a page"""
    _pyvc_stub = True

    def __init__(self, group):
        self.group = group


class Doc:
    """the markup of a page"""
    _pyvc_stub = True

    def __init__(self, page):
        self.page = page


class Svg:
    """the markup of a slide"""
    _pyvc_stub = True

    def __init__(self, e):
        self.e = e


class Unit:
    _pyvc_stub = True

    def __init__(self, run, k):
        self.run, self.k = run, k

    def get_svg(self):
        r = self.run
        return None if r.ctx.branch(r.nosvg(self.k)) else Svg(r.svg(self.k))


class Made:
    """an element of the list of pages"""
    _pyvc_stub = True

    def __init__(self, e):
        self.e = e


class Grouping:
    def __init__(self, ctx):
        import z3
        from pyvc.core import mk, to_z3
        from pyvc.interp import Interp
        from pyvc.values import Base, Measure, NotApplicable, RefKind, VList, VSeq, measure_states, seg_list
        from elsie.render.render import SvgRenderUnit
        from elsie.render.backends import InkscapeBackend
        from props import _draw as D
        from props._box import B_, ELEM, EXT, M, START, Z
        self.ctx = ctx
        self.I = I = Interp(ctx)
        R = z3.RealSort()
        self.C, self.R = ctx.int("columns"), ctx.int("rows")
        self.w, self.h = ctx.real("width"), ctx.real("height")
        C, w, h = to_z3(self.C), to_z3(self.w), to_z3(self.h)
        ctx.assume(z3.And(C >= 1, to_z3(self.R) >= 1))
        limit = z3.simplify(C * to_z3(self.R))
        ctx.assume(limit >= 1)      # the product of positive numbers
        self.svg = z3.Function("drawing", Z, ELEM)
        self.nosvg = z3.Function("without_drawing", Z, B_)
        unit = z3.Function("page_of_deck", Z, ELEM)
        put = z3.Function("put", M, ELEM, R, R, M)
        doc = z3.Function("grouped_page", M, ELEM)
        empty = z3.Const("empty_page", M)
        self.base = base = Base(ctx.int("n"), "pages")
        run = self

        def on_page(get, x):
            if not isinstance(x, Put):
                raise NotApplicable()
            name, attrs, items, _ = x.group
            ok = name == "g" and set(attrs) == {"transform"} and len(items) == 1 and isinstance(items[0], Svg)
            ctx.prove("a slide is put on the page as it is, in a moved group", ok)
            if not ok:
                raise NotApplicable()
            t = D.transform(attrs["transform"])
            ok = len(t) == 1 and t[0][0] == "translate" and len(t[0][1]) == 2
            ctx.prove("the group is moved", ok)
            if not ok:
                raise NotApplicable()
            return put(get("page"), items[0].e, D.real(t[0][1][0]), D.real(t[0][1][1]))
        ctx.measures["page"] = Measure("page", M, empty, on_page)

        def ident(x):
            if isinstance(x, Made):
                return x.e
            if isinstance(x, Unit):
                return unit(x.k)
            if isinstance(x, SvgRenderUnit) and isinstance(x.svg, Doc) and x.inkscape is self.shell:
                return doc(to_z3(x.svg.page))
            return None

        def listed(get, x):
            e = ident(x)
            if e is None:
                raise NotApplicable()
            return EXT(get("pages"), e)
        ctx.measures["pages"] = Measure("pages", M, START, listed)
        RefKind("made", ELEM, lambda v: (ident(v), ()) if ident(v) is not None else None, lambda e, x: Made(e))
        key = {M: "page"}

        def of_page(v):
            if not isinstance(v, Page) or v.group is not None:
                return None
            return to_z3(measure_states(v.items)["page"]), v.state()
        pk = RefKind("page", M, of_page, None)
        pk.make = lambda e, st: Page(run, seg_list({"page": lambda s: e}), st)

        def flush(P, T, i):
            return z3.If(i > 0, EXT(P, doc(T)), P)

        def step(which):
            def f(k, G):
                P, T, i = to_z3(G("P")), to_z3(G("T")), to_z3(G("i"))
                full = i == limit
                i0, T0 = z3.If(full, 0, i), z3.If(full, empty, T)
                x, y = z3.ToReal(i0 % C) * w, z3.ToReal(i0 / C) * h
                return {"P": z3.If(run.nosvg(k), EXT(flush(P, T, i), unit(k)), z3.If(full, EXT(P, doc(T)), P)),
                        "T": z3.If(run.nosvg(k), empty, put(T0, run.svg(k), x, y)),
                        "i": z3.If(run.nosvg(k), 0, i0 + 1)}[which]
            return f
        base.fold("P", M, START, step("P"))
        base.fold("T", M, empty, step("T"))
        base.fold("i", Z, z3.IntVal(0), step("i"))
        base.fold("asis", M, START, lambda k, G: EXT(to_z3(G("asis")), unit(k)))
        self.want = lambda: z3.If(limit == 1, to_z3(base.G("asis", base.n)), flush(
            to_z3(base.G("P", base.n)), to_z3(base.G("T", base.n)), to_z3(base.G("i", base.n))))

        def new():
            return Page(run, VList(tag="page"))
        new.__module__ = "props.R02"
        ctx.contracts["utils.sxml.Xml"] = new
        self.backend = object.__new__(InkscapeBackend)
        self.shell = self.backend.inkscape = object()
        self.seq = VSeq(base, lambda k: Unit(run, k))

    def gap(self, what):
        from pyvc.core import Unsupported
        raise Unsupported(what)

    def trace(self, lst):
        from pyvc.values import VList, measure_states
        if isinstance(lst, VList):
            return measure_states(lst)["pages"]
        log = VList(tag="elements")
        self.I.helper("h_foreach", lst, lambda x: self.I.list_method(log, "append", (x,), {}))
        return measure_states(log)["pages"]


@unit("pages are filled in reading order, included pages keep their place", budget=200,
      functions=["per_page_grouping", "svg_begin", "svg_end"])
def u_group(ctx):
    from pyvc.values import mk_eq
    from elsie.render.render import per_page_grouping
    g = Grouping(ctx)
    r = g.I.call(per_page_grouping, (g.backend, g.seq, g.C, g.R, g.w, g.h))
    ctx.reach("grouped")
    ctx.prove("the pages", mk_eq(g.trace(r), g.want()))
