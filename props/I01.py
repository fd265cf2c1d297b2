"""I01 image size, aspect ratio and place."""
from pyvc.api import bounded, unit
from pyvc import decks


def svg_file(w, h, unit=""):
    f = decks.fresh_dir() + "/i.svg"
    with open(f, "w") as fh:
        fh.write("<svg xmlns='http://www.w3.org/2000/svg' width='%s%s' height='%s%s'><rect id='q' width='3'/></svg>"
                 % (w, unit, h, unit))
    return f


def placement(page, kind, iw, ih):
    """Corner, extents of the drawn picture."""
    if kind == "svg":
        g = page.find("s:g", decks.NS)
        m = decks.affine(g.get("transform"))
        p, q = decks.apply(m, (0, 0)), decks.apply(m, (iw, ih))
        return (p[0], p[1], q[0] - p[0], q[1] - p[1])
    e = page.find("s:image", decks.NS)
    return tuple(float(e.get(k)) for k in ("x", "y", "width", "height"))


@bounded("drawn", "random natural sizes, box sizes (each extent defined or not), paddings and scales; bitmaps and SVG "
                  "images; drawn rectangle against the aspect, fit and centring rule")
def drawn(B):
    rng = B.rng
    for _ in range(B.n(400, 6000)):
        kind = rng.choice(["png", "jpeg", "svg"])
        iw, ih = rng.choice([1, 7, 20, 64]), rng.choice([1, 5, 20, 100])
        kw = {}
        if rng.random() < 0.6:
            kw["width"] = rng.choice([10, 55, 300, "50%", "100%", "fill"])
        if rng.random() < 0.6:
            kw["height"] = rng.choice([10, 35, 200, "40%", "100%", "fill"])
        sc = rng.choice([None, None, 1.0, 0.5, 3])
        pad = rng.choice([0, 0, 3])
        d = decks.deck(width=800, height=600)
        b = d.new_slide().box(padding=pad, **kw)
        B.case((kind, iw, ih, kw, sc, pad))
        if kind == "svg":
            b.image(svg_file(iw, ih), scale=sc)
        else:
            b.image(decks.png_bytes(iw, ih, fmt=kind), image_type=kind, scale=sc)
        page = decks.parse(decks.svgs(d)[0])
        x, y, w, h = decks.frect(b)
        if sc is None:
            fits = [f for f, e in ((w / iw, w), (h / ih, h)) if e]
            if not fits:
                continue
            s = min(fits)
        else:
            s = sc
        B.eq(placement(page, kind, iw, ih), (x + (w - iw * s) / 2, y + (h - ih * s) / 2, iw * s, ih * s),
             "rectangle of the drawn image", box=(x, y, w, h))


@bounded("requested", "boxes without padding whose size is left to the image: request against the natural size rule")
def requested(B):
    rng = B.rng
    for _ in range(B.n(300, 4000)):
        kind = rng.choice(["png", "svg"])
        iw, ih = rng.choice([1, 7, 20, 64]), rng.choice([1, 5, 20, 100])
        wd = rng.choice([None, None, 10, 55, 300])
        hd = rng.choice([None, None, 10, 35, 200])
        sc = rng.choice([None, None, 1, 0.5, 3])
        pad = rng.choice([0, 4]) if wd is None and hd is None else 0
        d = decks.deck(width=1200, height=1000)
        b = d.new_slide().box(width=wd, height=hd, padding=pad)
        B.case((kind, iw, ih, wd, hd, sc, pad))
        if kind == "svg":
            b.image(svg_file(iw, ih), scale=sc)
        else:
            b.image(decks.png_bytes(iw, ih), image_type="png", scale=sc)
        decks.units(d)
        if wd is None and hd is None:
            want = (iw * (sc or 1), ih * (sc or 1))
        else:
            want = (max(wd or 0, (hd or 0) * iw / ih), max(hd or 0, (wd or 0) * ih / iw))
        B.eq(decks.frect(b)[2:], want, "size of a box holding an image")


@bounded("sources", "the kinds of sources: file names by extension, bytes, file objects; unknown ones are rejected")
def sources(B):
    import io
    import os
    dr = decks.fresh_dir()
    png, jpg = decks.png_bytes(8, 4), decks.png_bytes(8, 4, fmt="jpeg")
    for name, data in (("a.png", png), ("b.jpg", jpg), ("c.jpeg", jpg)):
        with open(os.path.join(dr, name), "wb") as f:
            f.write(data)
    cases = [(os.path.join(dr, "a.png"), None), (os.path.join(dr, "b.jpg"), None),
             (os.path.join(dr, "c.jpeg"), None), (png, "png"), (jpg, "jpeg"), (io.BytesIO(png), "png"),
             (os.path.join(dr, "a.png"), "png"), (svg_file(8, 4), None), (svg_file(8, 4), "svg")]
    for src, typ in cases:
        B.case((type(src).__name__, str(src)[-8:], typ))
        d = decks.deck()
        b = d.new_slide().box(width=80)
        b.image(src, image_type=typ)
        b2 = d.new_slide().box(height=40)
        if not hasattr(src, "read"):
            b2.image(src, image_type=typ)  # second use of the same source
        p = decks.svgs(d)
        kind = "svg" if (typ == "svg" or (isinstance(src, str) and src.endswith("svg"))) else "bitmap"
        for page, box in zip(p, (b, b2)):
            if page is p[1] and hasattr(src, "read"):
                continue
            x, y, w, h = decks.frect(box)
            B.eq(placement(decks.parse(page), kind, 8, 4), (x, y, 80, 40), "placement")
    d = decks.deck()
    b = d.new_slide().box()
    for bad, typ in ((png, None), ("x.unknown", None), (png, "gif"), (io.BytesIO(png), None), (png, "svg")):
        B.case((type(bad).__name__, typ))
        B.raises(lambda: b.image(bad, image_type=typ), "unknown image source")


@bounded("two", "several images in one deck share nothing but the file")
def two(B):
    f = svg_file(20, 10)
    for s1 in (None, 2, 0.5):
        for s2 in (None, 1, 3):
            B.case((s1, s2))
            d = decks.deck(width=400, height=300)
            r = d.new_slide()
            b1, b2 = r.box(width=50), r.box(width=70, height=30)
            b1.image(f, scale=s1)
            b2.image(f, scale=s2)
            page = decks.parse(decks.svgs(d)[0])
            gs = page.findall("s:g", decks.NS)
            for b, g, s in ((b1, gs[0], s1), (b2, gs[1], s2)):
                x, y, w, h = decks.frect(b)
                s = s if s is not None else min(w / 20, h / 10)
                m = decks.affine(g.get("transform"))
                B.eq(decks.apply(m, (20, 10)), (x + (w + 20 * s) / 2, y + (h + 10 * s) / 2), "far corner")


# ------------------------------------------------------------------ proofs
class Drawn:
    """a rendering context that keeps the images"""
    _pyvc_stub = True

    def __init__(self, step=1):
        self.step, self.drawn = step, []

    def draw_bitmap(self, **kw):
        self.drawn.append(kw)

    def draw_svg(self, **kw):
        self.drawn.append(kw)


def check_place(ctx, D, got, x, y, w, h, s, rot):
    D.eq_nums(ctx, "centred in the box", [got.get("x"), got.get("y")], [x, y])
    D.eq_nums(ctx, "the size keeps the aspect ratio and fits", [got.get("width"), got.get("height")], [w, h])
    if "scale" in got:
        ctx.prove("drawn at the scale", D.real(got["scale"]) == D.real(s))
    if rot is not None and got.get("rotation_center") is not None:
        D.eq_nums(ctx, "rotated about the centre", list(got["rotation_center"]), [x + w / 2, y + h / 2])
    D.same(ctx, "rotation", got.get("rotation"), rot)


@unit("images: drawn size and place, requested size")
def u_place(ctx):
    from pyvc.interp import Interp
    from props import _draw as D
    I = Interp(ctx)
    b = D.placed_box(I, ctx)
    im = D.Images(I, ctx, ("bitmap", "svg")[ctx.choose(2, "kind")])
    scale = D.opt(ctx, "scale", lambda: ctx.real("scale"))
    if scale is not None:
        ctx.assume(D.real(scale) > 0)
    rot = D.opt(ctx, "rotation", lambda: ctx.real("angle"))
    kw = {"fragments": False} if im.kind == "svg" and ctx.choose(2, "fragments") else {}
    im.put(I, b, scale=scale, rotation=rot, **kw)
    f = D.real(scale) if scale is not None else D.z3.RealVal(1)
    ctx.prove("one size is requested", len(b.layout.requests) == 1)
    D.eq_nums(ctx, "the natural size times the scale is requested", b.layout.requests[0],
              [D.real(im.w) * f, D.real(im.h) * f])
    ctx.prove("one item", len(b.children) == 1)
    b.layout.lay_out()
    c = Drawn()
    I.call(b.children[0].render, (c,))
    ctx.prove("one image is drawn", len(c.drawn) == 1)
    ctx.reach(im.kind)
    s, x, y, w, h = im.scale(ctx, b.layout._rect, scale)
    check_place(ctx, D, c.drawn[0], x, y, w, h, s, rot)


@unit("images: the size a box with an image requests")
def u_request(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp
    from elsie.boxtree.layout import Layout
    from props import _draw as D
    I = Interp(ctx)
    R = D.real

    def size(nm):
        k = ctx.choose(4, nm)
        if k == 1:
            v = ctx.real(nm)
            ctx.assume(R(v) >= 0)
            return v
        return (None, None, "50%", "fill")[k]
    w, h = size("w"), size("h")
    pads = [0] * 4
    if w is None and h is None and ctx.choose(2, "padding"):
        pads = [ctx.real("pad%d" % i) for i in range(4)]
        for p in pads:
            ctx.assume(R(p) >= 0)
    l = I.call(Layout, (None, None, w, h) + tuple(pads))
    mx, my, iw, ih = (ctx.real(n) for n in ("content_w", "content_h", "image_w", "image_h"))
    for v in (mx, my):
        ctx.assume(R(v) >= 0)
    for v in (iw, ih):
        ctx.assume(R(v) > 0)

    def content(self):
        return mx, my
    content.__module__ = "props.I01"
    ctx.contracts["boxtree.layout.Layout.min_children_size"] = content
    I.call(l.set_image_size_request, (iw, ih))
    ctx.reach("request %s %s" % (w is None, h is None))
    rw, rh = I.call(l.compute_size_request)

    def most(a, b):
        return z3.If(a >= b, a, b)
    own = [R(v) if v is not None and not isinstance(v, str) else z3.RealVal(0) for v in (w, h)]
    have = [most(o, R(c)) for o, c in zip(own, (mx, my))]
    if w is None and h is None:
        need = [R(iw), R(ih)]
        base = [R(mx), R(my)]
    else:
        need = [have[1] * R(iw) / R(ih), have[0] * R(ih) / R(iw)]
        base = have
    add = [R(pads[0]) + R(pads[1]), R(pads[2]) + R(pads[3])]
    D.eq_nums(ctx, "the requested size", [rw.min_size, rh.min_size],
              [mk(most(b, n) + a) for n, a, b in zip(need, add, base)])
    for v, q, n in ((w, rw, "width"), (h, rh, "height")):
        ctx.prove("the kind of the size definition stays", (q.ratio, q.fill) == {"50%": (0.5, 0), "fill": (None, 1)}.get(
            v if isinstance(v, str) else None, (None, 0)))


@unit("images: rendered LaTeX")
def u_latex(ctx):
    import lxml.etree as et
    from pyvc.interp import Interp
    from elsie.ext.latex import latex
    from props import _draw as D
    I = Interp(ctx)
    b = D.placed_box(I, ctx)
    b.layout._add = []
    ew, eh = [], []
    b.layout.ensure_width, b.layout.ensure_height = ew.append, eh.append
    im = D.Images(I, ctx, "svg")
    asked = []

    class Cache:
        _pyvc_stub = True

        def get(self, key, typ, make):
            asked.append((key, typ))
            return D.Markup(None)
    b.slide.fs_cache = Cache()

    def parse(I_, t, *a):
        ctx.prove("the rendered picture is read", isinstance(t, D.Markup))
        return im.root
    I.models[et.fromstring] = parse
    kw = {}
    scale = 1
    if ctx.choose(2, "scale"):
        scale = kw["scale"] = ctx.real("scale")
        ctx.assume(D.real(scale) > 0)
    src = D.text(ctx, "source")
    try:
        I.call(latex, (b, src), kw)
    except AttributeError:
        raise
    w, h = D.real(im.w) * D.real(scale), D.real(im.h) * D.real(scale)
    ctx.prove("one size is requested", len(ew) == 1 and len(eh) == 1)
    D.eq_nums(ctx, "the natural size times the scale is requested", ew + eh, [w, h])
    ctx.prove("the source is rendered once", len(asked) == 1 and asked[0][1] == "svg")
    b.layout.lay_out()
    c = Drawn()
    ctx.prove("one item", len(b.children) == 1)
    I.call(b.children[0].render, (c,))
    ctx.reach("latex")
    ctx.prove("one image is drawn", len(c.drawn) == 1)
    r = b.layout._rect
    x, y = D.real(r.x) + (D.real(r.width) - w) / 2, D.real(r.y) + (D.real(r.height) - h) / 2
    check_place(ctx, D, c.drawn[0], x, y, w, h, D.real(scale), None)
