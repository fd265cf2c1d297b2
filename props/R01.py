"""R01 rendering is repeatable."""
import hashlib
import os
import random

from pyvc.api import bounded, unit
from pyvc import decks
import elsie
from elsie.ext import markdown as md_ext, ordered_list
from elsie import Arrow, TextStyle

SVG = ("<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape' "
       "width='20' height='10'><g inkscape:label='**1**'><rect width='3' height='2'/></g>"
       "<g inkscape:label='**2+**'><rect width='4' height='5'/></g></svg>")


def fill_slide(rng, s, svg, n=8):
    """Random content; every drawing construct of the library."""
    boxes = [s]
    texts = []
    log = []
    for _ in range(rng.randint(2, n)):
        b = rng.choice(boxes)
        k = rng.choice(["box", "box", "fit", "text", "code", "img", "png", "line", "path", "poly", "shape", "overlay",
                        "style", "linebox", "inline", "md", "list", "lazy"])
        log.append(k)
        if k == "box":
            boxes.append(b.box(x=rng.choice([None, 5, "10%", "[50%]"]), y=rng.choice([None, 3, "[20%]"]),
                               width=rng.choice([None, 50, "fill", "40%"]), height=rng.choice([None, "fill(2)", 30]),
                               padding=rng.choice([0, 2]), show=rng.choice([None, "2+", "1-2", "next+", "last+"]),
                               z_level=rng.choice([None, None, -1, 3]), horizontal=rng.random() < 0.3))
        elif k == "fit":
            texts.append(b.box(width=rng.choice([90, 200]), height=rng.choice([20, 60])).text(
                "Hello ~emph{big}\nworld", scale_to_fit=True))
        elif k == "text":
            texts.append(b.box().text("some ~emph{text ~tt{x}}\nline 2", TextStyle(align=rng.choice(
                ["left", "middle", "right"]), size=rng.choice([10, 28])), rotation=rng.choice([None, 20])))
        elif k == "code":
            texts.append(b.box().code("python", "def f(x):\n    return ~emph{x}", use_styles=rng.random() < 0.5,
                                      line_numbers=rng.random() < 0.5))
            if rng.random() < 0.5:
                b.box(width=100, height=50).code("c", "int x;", scale_to_fit=True)
        elif k == "img":
            b.box(width=rng.choice([None, 40])).image(svg, scale=rng.choice([None, 0.5]), show_begin=rng.choice([1, 2]),
                                                      rotation=rng.choice([None, 30]))
        elif k == "png":
            b.box(height=20).image(decks.png_bytes(4, 3), image_type="png")
        elif k == "line":
            pts = [(rng.randint(0, 50), rng.randint(0, 50)) for _ in range(3)]
            if len(set(pts)) == 3:
                b.line([b.p(*p) for p in pts], start_arrow=Arrow(5) if rng.random() < 0.5 else None,
                       end_arrow=Arrow(7, stroke_width=2, inner=0.5) if rng.random() < 0.5 else None, color="red")
        elif k == "path":
            cmds = [("M", (0, 0)), ("L", b.p(20, 10)), ("Q", (30, 30), ("50%", "60%"))]
            b.path(cmds, color="red", end_arrow=Arrow(8) if rng.random() < 0.6 else None)
        elif k == "poly":
            b.polygon([(0, 0), ("100%", 5), b.p(30, 40)], bg_color="blue", rotation=rng.choice([None, 10]))
        elif k == "shape":
            b.rect(bg_color="green", rx=3, rotation=5).ellipse(color="red", stroke_dasharray="4 2")
        elif k == "overlay":
            boxes.append(b.overlay(show=rng.choice([None, "last+"])))
        elif k == "style":
            b.set_style("emph", TextStyle(color="c%d" % rng.randint(0, 9)))
        elif k == "linebox" and texts:
            rng.choice(texts).line_box(0, rng.choice([1, 2])).rect(bg_color="y")
        elif k == "inline" and texts:
            t = rng.choice(texts)
            try:
                t.inline_box("emph").rect(color="z")
            except Exception:
                pass
        elif k == "md":
            md_ext(b, "# A\n\nb **c**\n\n- d\n- e\n")
        elif k == "list":
            l = ordered_list(b)
            l.item().text("a")
            l.ul().item().text("b")
        elif k == "lazy":
            o = rng.choice([b, s])
            b.box(x=o.x("50%").add(3), y=o.y(2), width=o.x("100%") if rng.random() < 0.1 else 20, height=5).rect()
    return log


def build(seed, only=None, cairo=False, cache=None):
    d = decks.deck(cairo=cairo, cache_dir=cache, width=400, height=300)
    svg = os.path.join(decks.fresh_dir(), "i.svg")
    with open(svg, "w") as f:
        f.write(SVG)
    rng = random.Random(seed)
    logs = []
    slides = []
    for i in range(rng.randint(1, 4)):
        r = random.Random("%s/%d" % (seed, i))
        if only is not None and only != i:
            continue
        s = d.new_slide(bg_color=r.choice([None, "bg"]) if not cairo else None,
                        view_box=r.choice([None, None, (0, 0, 100, 80)]))
        slides.append(s.slide)
        logs.append(fill_slide(r, s, svg))
    return d, slides, logs


def norm(svg):
    """Embedded file names differ between decks only; pages do not contain any."""
    return svg


@bounded("again", "random decks with every drawing construct; random sequences of renders (whole, selected slides in "
                  "other orders, grids, PNG/PDF export, SVG units, pruned or not); all pages of unchanged slides equal")
def again(B):
    rng = B.rng
    for it in range(B.n(80, 1200)):
        d, slides, logs = build("%d-%d" % (B.seed, it))
        B.case(logs)
        first = {}
        hist = []
        for rnd in range(rng.randint(2, 5)):
            k = rng.choice(["all", "all", "select", "grid", "export", "pages"])
            hist.append(k)
            sel = None
            if k == "select":
                sel = rng.sample(slides, rng.randint(1, len(slides)))
            if k == "grid":
                decks.units(d, slides_per_page=(2, 2), prune_cache=rng.random() < 0.5)
                continue
            if k == "export":
                with decks.quiet():
                    typ = rng.choice(["png", "pdf"])
                    a = d.render(None, export_type=typ, pdf_merger=None, prune_cache=False)
                    b = d.render(None, export_type=typ, pdf_merger=None, prune_cache=rng.random() < 0.5)
                B.eq(b, a, "exported files", history=hist)
                continue
            us = decks.units(d, select_slides=sel, prune_cache=rng.random() < 0.5, save_cache=rng.random() < 0.5)
            want = sel if sel is not None else slides
            got = {}
            order = []
            for u in us:
                i = slides.index(u.slide)
                got.setdefault(i, []).append(u.get_svg())
                if i not in order:
                    order.append(i)
            B.eq(order, [slides.index(s) for s in want], "order of the slides", history=hist)
            for i, pages in got.items():
                if i in first:
                    B.eq(pages, first[i], "pages of slide %d rendered again" % i, history=hist)
                first[i] = pages


@bounded("alone", "random decks; every slide built alone in its own deck gives the pages it has in the full deck")
def alone(B):
    for it in range(B.n(60, 800)):
        seed = "a%d-%d" % (B.seed, it)
        d, slides, logs = build(seed)
        B.case(logs)
        pages = {}
        for u in decks.units(d):
            pages.setdefault(slides.index(u.slide), []).append(u.get_svg())
        for i in range(len(slides)):
            d1, _, _ = build(seed, only=i)
            B.eq(decks.svgs(d1), pages[i], "pages of slide %d alone" % i)


@bounded("changed", "a slide changed between two renders shows the change and no other slide does")
def changed(B):
    for it in range(B.n(40, 500)):
        d, slides, logs = build("c%d-%d" % (B.seed, it))
        B.case(logs)
        a = {}
        for u in decks.units(d):
            a.setdefault(slides.index(u.slide), []).append(u.get_svg())
        k = B.rng.randrange(len(slides))
        slides[k].box().box(x=1, y=2, width=3, height=4).rect(bg_color="NEW")
        b = {}
        for u in decks.units(d):
            b.setdefault(slides.index(u.slide), []).append(u.get_svg())
        for i in a:
            if i != k:
                B.eq(b[i], a[i], "pages of an unchanged slide")
            else:
                B.check(len(a[i]) == len(b[i]) and all("NEW" in p for p in b[i]), "pages of the changed slide")


@bounded("cairo", "random decks drawn twice by the Cairo backend to PNG, whole and selected: equal pictures")
def cairo(B):
    def digest(files):
        return [hashlib.sha1(open(f, "rb").read()).hexdigest() for f in files]
    for it in range(B.n(4, 60)):
        d = decks.deck(cairo=True, width=200, height=150)
        rng = random.Random("%d-%d" % (B.seed, it))
        slides = []
        for i in range(2):
            s = d.new_slide(view_box=rng.choice([None, (0, 0, 100, 90)]))
            slides.append(s.slide)
            s.box(width=100, height=30).text("Hello ~emph{x}\nw", scale_to_fit=rng.random() < 0.5)
            s.box(width=40, height=30).ellipse(color="red", stroke_dasharray="3 2", bg_color="green")
            s.line([(0, 0), (100, 100)], end_arrow=Arrow(5), color="blue")
            s.box(width=30, height=20).image(decks.png_bytes(4, 3), image_type="png")
        B.case((it,))
        with decks.quiet():
            a = digest(d.render(None, export_type="png", prune_cache=False))
            b = digest(d.render(None, export_type="png", prune_cache=False))
            c = digest(d.render(None, export_type="png", prune_cache=False, select_slides=[slides[1]]))
        B.eq(b, a, "pictures of a second render")
        B.eq(c, a[1:], "picture of a selected slide")


# ------------------------------------------------------------------ proofs
def snapshot(v):
    """the value now, independent of later changes of mutable parts"""
    from elsie.utils.geom import Rect
    if isinstance(v, Rect):
        return ("rect", v.x, v.y, v.width, v.height)
    if type(v) in (list, tuple):
        return [snapshot(x) for x in v]
    if type(v) is dict:
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, list):
        from pyvc.core import Unsupported
        from pyvc.values import has_abs
        if has_abs(v):
            raise Unsupported("a list of unknown length")
        return [snapshot(x) for x in list.__iter__(v)]
    return v


def same(ctx, what, a, b):
    """the same values"""
    from pyvc.core import SNum, SStr, Sym
    from pyvc.values import mk_eq
    if type(a) is list and type(b) is list or type(a) is tuple and type(b) is tuple:
        ctx.prove(what, len(a) == len(b))
        if len(a) == len(b):
            for x, y in zip(a, b):
                same(ctx, what, x, y)
    elif type(a) is dict and type(b) is dict:
        ctx.prove(what, a.keys() == b.keys())
        for k in a.keys() & b.keys():
            same(ctx, what, a[k], b[k])
    elif a is b:
        ctx.prove(what, True)
    elif a is None or b is None:
        ctx.prove(what, False)
    elif type(a).__name__ == "Markup" and type(b).__name__ == "Markup":
        same(ctx, what, a.step, b.step)
    elif isinstance(a, (Sym, int, float, str)) and isinstance(b, (Sym, int, float, str)):
        ctx.prove(what, mk_eq(a, b))
    else:
        from pyvc.core import Unsupported
        raise Unsupported("comparison of %s" % type(a).__name__)


class Canvas:
    """a rendering context that keeps what it is told to draw"""
    _pyvc_stub = True

    def __init__(self, step):
        self.step, self.debug_boxes, self.log = step, False, []

    def __getattr__(self, name):
        if not name.startswith("draw_"):
            raise AttributeError(name)

        def draw(*a, **kw):
            self.log.append((name, [snapshot(x) for x in a], {k: snapshot(x) for k, x in kw.items()}))
        draw.__module__ = "props.R01"
        return draw


def twice(ctx, I, D, box, step, put):
    """drawn in one layout, in another one, and in the first again; a new one drawn in the other one only"""
    from elsie.utils.geom import Rect
    l = box.layout
    px, py = l.px, l.py
    put(box)
    fresh = D.X.bare_box(I, ctx, box.slide, box._show_info, layout=l)
    put(fresh)
    other = Rect(*[ctx.real("other_" + a) for a in ("left", "top", "width", "height")])
    for v in (other.width, other.height):
        ctx.assume(D.real(v) >= 0)
    import z3
    first = l._rect
    want = [first.x, first.y, first.width, first.height]
    logs = []
    steps = (step, ctx.int("other_step"), step)
    ctx.assume(D.to_z3(steps[1]) >= 1)
    z = lambda n: z3.Function("other_" + n, D.R, D.R)
    for i, (rect, fx, fy) in enumerate(((first, px, py), (other, z("x"), z("y")), (Rect(*want), px, py))):
        l._rect, l.px, l.py = rect, fx, fy
        l.lay_out()
        c = Canvas(steps[i])
        for p in list(box.children):
            I.call(p.render, (c,))
        logs.append(c.log)
        if i == 1:
            c = Canvas(steps[i])
            for p in list(fresh.children):
                I.call(p.render, (c,))
            same(ctx, "drawn as if for the first time", [list(x) for x in logs[1]], [list(x) for x in c.log])
        ctx.prove("drawing does not change the layout", l.rect is rect)
        if rect is first:
            same(ctx, "drawing does not change the rectangle", [rect.x, rect.y, rect.width, rect.height], want)
    ctx.reach("drawn again")
    same(ctx, "drawn again as before", [list(x) for x in logs[0]], [list(x) for x in logs[2]])


@unit("shapes are drawn again as before, after any other layout and page", budget=200)
def u_shapes(ctx):
    from pyvc.interp import Interp
    from props import _draw as D
    I = Interp(ctx)
    b = D.placed_box(I, ctx)
    kind = ctx.choose(5, "shape")
    kw = dict(color=D.text(ctx, "colour"), stroke_width=ctx.real("stroke"), stroke_dasharray=D.text(ctx, "dashes"))
    if kind < 4 and kind != 3:
        kw["bg_color"] = D.text(ctx, "background")
        kw["rotation"] = D.opt(ctx, "rotation", lambda: ctx.real("angle"))
    pts = [(ctx.real("x%d" % i), ctx.real("y%d" % i)) for i in range(3)]
    heads = [Head(ctx, n) if kind >= 3 and ctx.choose(2, n) else None for n in ("start", "end")]
    if kind == 0:
        kw.update(rx=D.opt(ctx, "rx", lambda: ctx.real("rx")), ry=ctx.real("ry"))
    elif kind == 3:
        kw.update(start_arrow=heads[0], end_arrow=heads[1])
    elif kind == 4:
        kw.update(bg_color=D.text(ctx, "background"), end_arrow=heads[1])
    args = [(), (), (pts,), (pts,), ([("M", pts[0]), ("L", pts[1]), ("Q", pts[2], pts[0])],)][kind]

    def put(b):
        I.call(getattr(b, ("rect", "ellipse", "polygon", "line", "path")[kind]), tuple(list(a) for a in args), dict(kw))
    twice(ctx, I, D, b, 1, put)


class Head:
    """an arrow by its contract (G01): moves the end of a line, draws itself; both depend on its arguments only"""
    _pyvc_stub = True

    def __init__(self, ctx, name):
        self._ctx, self.name = ctx, name

    def move_end_point(self, p1, p2):
        import z3
        from pyvc.core import mk
        from props import _draw as D
        a = [D.real(v) for v in tuple(p1) + tuple(p2)]
        return tuple(mk(z3.Function("moved_%s_%s" % (self.name, c), *[D.R] * 5)(*a)) for c in "xy")

    def render(self, c, p1, p2, color):
        c.log.append(("head " + self.name, [snapshot(tuple(p1)), snapshot(tuple(p2)), color], {}))


@unit("images are drawn again as before, after any other layout and page", budget=200)
def u_images(ctx):
    from pyvc.interp import Interp
    from props import _draw as D
    I = Interp(ctx)
    b = D.placed_box(I, ctx)
    im = D.Images(I, ctx, ("svg", "bitmap")[ctx.choose(2, "kind")])
    kw = dict(scale=D.opt(ctx, "scale", lambda: ctx.real("scale")),
              rotation=D.opt(ctx, "rotation", lambda: ctx.real("angle")))
    if kw["scale"] is not None:
        ctx.assume(D.real(kw["scale"]) > 0)
    step = ctx.int("step")
    ctx.assume(D.to_z3(step) >= 1)
    if im.kind == "svg":
        kw["show_begin"] = ctx.int("show_begin")
        ctx.assume(D.to_z3(kw["show_begin"]) >= 1)
        kw["fragments"] = bool(ctx.choose(2, "fragments"))
    twice(ctx, I, D, b, step, lambda box: im.put(I, box, **kw))


@unit("texts are drawn again as before, after any other layout", budget=200)
def u_texts(ctx):
    from elsie.utils.geom import Rect
    from props.T04 import H
    h = H(ctx)
    item = h.text()
    rects = [[ctx.real("%s%d" % (nm, j)) for nm in ("left", "top", "width", "height")] for j in range(2)]
    for r in rects:
        for x in r[2:]:
            ctx.assume(h.D.real(x) >= 0)
    logs = []
    for r in (rects[0], rects[1], rects[0]):
        h.layout.place(Rect(*r))
        c = Canvas(1)
        h.I.call(item.render, (c,))
        logs.append(c.log)
    ctx.prove("the text stays", not h.toks.given.mutated)
    ctx.reach("drawn again")
    same(ctx, "drawn again as before", [list(x) for x in logs[0]], [list(x) for x in logs[2]])


@unit("boxes are laid out again as before, and keep everything but their rectangle", budget=300,
      functions=["Layout.set_rect"])
def u_layout(ctx):
    from props import _layout
    _layout.set_rect_unit(ctx, ("L01", "L02", "L03", "R01"))


@unit("rendering a deck again makes the same pages and leaves the deck as it is", budget=200,
      functions=["SlideDeck.render"])
def u_deck(ctx):
    from pyvc.values import mk_eq
    from props import _deck as D
    run = D.Run(ctx, types=("pdf",))
    ctx.assume(run.slides.n > 0)
    if run.post:
        return
    before = dict(vars(run.deck))
    pages = []
    for how in range(2):
        run.I.sites.append("render%d" % how)
        kw = dict(return_units=True) if how else dict(pdf_merger=None)
        r = run.render(**kw)
        pages.append(run.trace(r))
        ctx.prove("the pages", mk_eq(pages[-1], run.pages()))
        after = dict(vars(run.deck))
        ctx.prove("the deck stays as it is", before.keys() == after.keys() and all(
            after[k] is before[k] for k in before))
        ctx.prove("the list of slides stays as it is", not run.seq.mutated and not run.deck._slides.mutated)
    ctx.reach("rendered again")
    ctx.prove("the same pages again", mk_eq(pages[0], pages[1]))
