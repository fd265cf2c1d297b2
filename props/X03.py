"""X03 shapes."""
import math
from pyvc.api import bounded, unit
from pyvc import decks
affine, apply = decks.affine, decks.apply


def paint_kw(rng):
    return {"color": rng.choice([None, "red", "#123456"]), "bg_color": rng.choice([None, "blue"]),
            "stroke_width": rng.choice([1, 2.5, 7]), "stroke_dasharray": rng.choice([None, "4 2", "1"])}


def check_paint(B, el, kw):
    s = decks.style_of(el)
    s = {k.strip(): v.strip() for k, v in s.items()}
    B.eq(s.get("fill"), kw.get("bg_color") or "none", "fill", kw=kw)
    if kw["color"]:
        B.eq(s.get("stroke"), kw["color"], "stroke colour", kw=kw)
        B.eq(float(s.get("stroke-width")), kw["stroke_width"], "stroke width", kw=kw)
        B.eq(s.get("stroke-dasharray"), kw["stroke_dasharray"], "dashes", kw=kw)
    else:
        B.check(s.get("stroke") == "none", "stroke without a colour", style=s)


def rot(B, el, angle, center, what):
    m = affine(el.get("transform"))
    want = affine("rotate(%s %s %s)" % (angle or 0, center[0], center[1]))
    B.eq(m, want, "rotation of a " + what, angle=angle, center=center, transform=el.get("transform"))


@bounded("shapes", "random boxes with paddings, shapes of all kinds, rotations and paints, parsed from the page")
def shapes(B):
    rng = B.rng
    for _ in range(B.n(600, 8000)):
        d = decks.deck(width=500, height=400)
        w, h = rng.choice([50, 80.5, 200]), rng.choice([20, 130.25, 60])
        b = d.new_slide().box(x=rng.randint(0, 50), y=rng.randint(0, 50), width=w, height=h, p_left=3, p_top=rng.choice([0, 4]))
        r = rng.choice([None, 0, 30, -45.5, 90, 200])
        kw = paint_kw(rng)
        rx, ry = rng.choice([None, 5]), rng.choice([None, 7])
        pts = [(rng.randint(-20, 100), rng.randint(-20, 100)) for _ in range(rng.randint(3, 6))]
        B.case((w, h, r, kw, rx, ry, pts))
        b.rect(rx=rx, ry=ry, rotation=r, **kw)
        b.ellipse(rotation=r, **kw)
        b.polygon(pts, rotation=r, **kw)
        lk = {k: v for k, v in kw.items() if k != "bg_color"}
        b.line(pts, **lk)
        cmds = [("M", pts[0]), ("L", pts[1]), ("C", pts[0], pts[1], pts[2]), ("Q", pts[2], pts[1]), ("S", pts[0], pts[2]),
                ("T", pts[1]), ("L", pts[0], pts[2])]
        b.path(cmds, **kw)
        page = decks.parse(decks.svgs(d)[0])
        x, y, cw, ch = decks.frect(b)
        e = page.find("s:rect", decks.NS)
        B.eq([float(e.get(k)) for k in ("x", "y", "width", "height")], [x, y, cw, ch], "rectangle")
        B.eq([e.get("rx") and float(e.get("rx")), e.get("ry") and float(e.get("ry"))], [rx, ry], "corner radii")
        rot(B, e, r, (x + cw / 2, y + ch / 2), "rectangle")
        check_paint(B, e, kw)
        e = page.find("s:ellipse", decks.NS)
        B.eq([float(e.get(k)) for k in ("cx", "cy", "rx", "ry")], [x + cw / 2, y + ch / 2, cw / 2, ch / 2], "ellipse")
        rot(B, e, r, (x + cw / 2, y + ch / 2), "ellipse")
        check_paint(B, e, kw)
        ap = [(x + p[0], y + p[1]) for p in pts]
        e = page.find("s:polygon", decks.NS)
        B.eq(decks.nums(e.get("points")), [c for p in ap for c in p], "polygon points")
        rot(B, e, r, (sum(p[0] for p in ap) / len(ap), sum(p[1] for p in ap) / len(ap)), "polygon")
        check_paint(B, e, kw)
        e = page.find("s:polyline", decks.NS)
        B.eq(decks.nums(e.get("points")), [c for p in ap for c in p], "line points")
        check_paint(B, e, dict(kw, bg_color=None))
        e = page.find("s:path", decks.NS)
        import re
        got = [(n, decks.nums(a)) for n, a in re.findall(r"([A-Za-z])([^A-Za-z]*)", e.get("d"))]
        want = [(c[0], [v for p in c[1:] for v in (x + p[0], y + p[1])]) for c in cmds]
        B.eq(got, want, "path commands", d=e.get("d"))
        check_paint(B, e, kw)


@bounded("images", "bitmaps and SVG images: position, size, scale, rotation about their own centre, embedded data")
def images(B):
    import base64
    rng = B.rng
    png = decks.png_bytes(8, 4)
    jpg = decks.png_bytes(6, 6, fmt="jpeg")
    f = decks.fresh_dir() + "/a.svg"
    open(f, "w").write("<svg xmlns='http://www.w3.org/2000/svg' width='20' height='10'><rect id='q' width='3'/></svg>")
    for _ in range(B.n(300, 4000)):
        d = decks.deck(width=500, height=400)
        w, h = rng.choice([50, 80.5]), rng.choice([20, 130.25])
        b = d.new_slide().box(x=rng.randint(0, 50), y=rng.randint(0, 50), width=w, height=h)
        r = rng.choice([None, 0, 30, -90])
        sc = rng.choice([None, 1.0, 2, 0.5])
        kind = rng.choice(["png", "jpeg", "svg"])
        B.case((w, h, r, sc, kind))
        if kind == "svg":
            b.image(f, scale=sc, rotation=r)
            iw, ih = 20, 10
        else:
            b.image(png if kind == "png" else jpg, image_type=kind, scale=sc, rotation=r)
            iw, ih = (8, 4) if kind == "png" else (6, 6)
        page = decks.parse(decks.svgs(d)[0])
        x, y, cw, ch = decks.frect(b)
        s = sc if sc is not None else min(cw / iw, ch / ih)
        px, py = x + (cw - iw * s) / 2, y + (ch - ih * s) / 2
        R = affine("rotate(%s %s %s)" % (r or 0, px + iw * s / 2, py + ih * s / 2))
        if kind == "svg":
            g = page.find("s:g", decks.NS)
            m = affine(g.get("transform"))
            for p in ((0, 0), (20, 10), (3, 7)):
                B.eq(apply(m, p), apply(R, (px + p[0] * s, py + p[1] * s)), "placement of an SVG image")
            B.check(g.find(".//s:rect[@id='q']", decks.NS) is not None, "content of the image")
        else:
            e = page.find("s:image", decks.NS)
            B.eq([float(e.get(k)) for k in ("x", "y", "width", "height")], [px, py, iw * s, ih * s], "bitmap")
            rot(B, e, r, (px + iw * s / 2, py + ih * s / 2), "bitmap")
            href = e.get("{http://www.w3.org/1999/xlink}href")
            B.check(href.startswith("data:image/%s;base64," % kind), "kind of the bitmap", href=href[:40])
            B.eq(base64.b64decode(href.split(",", 1)[1]), png if kind == "png" else jpg, "data of the bitmap")


# ------------------------------------------------------------------ proofs
def paint(ctx, bg=True):
    from props import _draw as D
    import z3
    kw = dict(color=D.opt(ctx, "color", lambda: D.text(ctx, "colour")),
              stroke_width=ctx.real("stroke_width"),
              stroke_dasharray=D.opt(ctx, "dash", lambda: D.text(ctx, "dashes")))
    ctx.assume(D.real(kw["stroke_width"]) > 0)
    if bg:
        kw["bg_color"] = D.opt(ctx, "bg", lambda: D.text(ctx, "background"))
    return kw


def paint_ok(ctx, el, kw):
    from props import _draw as D
    D.check_paint(ctx, el, kw["color"], kw.get("bg_color"), kw["stroke_width"], kw["stroke_dasharray"])


@unit("rectangles and ellipses, from the box to the element")
def u_rect(ctx):
    from pyvc.interp import Interp
    from props import _draw as D
    I = Interp(ctx)
    b = D.placed_box(I, ctx)
    kind = ctx.choose(2, "kind")
    kw = paint(ctx)
    rot = D.opt(ctx, "rotation", lambda: ctx.real("angle"))
    rx = ry = None
    if kind == 0:
        rx, ry = D.opt(ctx, "rx", lambda: ctx.real("rx")), D.opt(ctx, "ry", lambda: ctx.real("ry"))
        I.call(b.rect, (), dict(kw, rotation=rot, rx=rx, ry=ry))
    else:
        I.call(b.ellipse, (), dict(kw, rotation=rot))
    r = b.layout._rect
    el = D.one(ctx, D.emitted(I, ctx, b), ("rect", "ellipse")[kind])

    def num(k):
        return D.read(ctx, k, D.number, el.attrs.get(k, 0))
    if kind == 0:
        ctx.reach("rectangle")
        D.eq_nums(ctx, "the rectangle is the content rectangle", [num(k) for k in ("x", "y", "width", "height")],
                  [r.x, r.y, r.width, r.height])
        for k, v in (("rx", rx), ("ry", ry)):
            if k in el.attrs:
                ctx.prove("corner radius", v is not None and D.real(num(k)) == D.real(v))
            else:
                ctx.prove("corner radius", v is None or D.real(v) == 0)
    else:
        ctx.reach("ellipse")
        D.eq_nums(ctx, "the ellipse fills the content rectangle", [num(k) for k in ("cx", "cy", "rx", "ry")],
                  [r.x + r.width / 2, r.y + r.height / 2, r.width / 2, r.height / 2])
    D.check_rotation(ctx, D.read(ctx, "transform", D.transform, el.attrs.get("transform")), rot,
                     r.x + r.width / 2, r.y + r.height / 2)
    paint_ok(ctx, el, kw)


@unit("polygons and lines, from the box to the element")
def u_poly(ctx):
    from pyvc.interp import Interp
    from pyvc.values import mk_eq
    from props import _draw as D
    I = Interp(ctx)
    b = D.placed_box(I, ctx)
    kind = ctx.choose(2, "kind")
    kw = paint(ctx, bg=kind == 0)
    p = D.Points(I, ctx, b.layout, least=2)
    rot = None
    if kind == 0:
        rot = D.opt(ctx, "rotation", lambda: ctx.real("angle"))
        I.call(b.polygon, (p.given,), dict(kw, rotation=rot))
    else:
        I.call(b.line, (p.given,), dict(kw))
    el = D.one(ctx, D.emitted(I, ctx, b), ("polygon", "polyline")[kind])
    ctx.reach(("polygon", "line")[kind])
    t = D.joined_points(I, ctx, "points", el.attrs.get("points", ""))
    ctx.prove("every point of the box, in order", mk_eq(t, p.end("pts")))
    ctx.prove("the given points are not changed", not p.given.mutated)
    n = D.real(p.n)
    D.check_rotation(ctx, D.read(ctx, "transform", D.transform, el.attrs.get("transform")), rot,
                     p.end("sx") / D.mk(n), p.end("sy") / D.mk(n))
    paint_ok(ctx, el, kw)


@unit("images, from the box to the element")
def u_images(ctx):
    import z3
    from pyvc.interp import Interp
    from pyvc.core import to_z3
    from props import _draw as D
    I = Interp(ctx)
    b = D.placed_box(I, ctx)
    kind = ("bitmap", "svg")[ctx.choose(2, "kind")]
    im = D.Images(I, ctx, kind)
    scale = D.opt(ctx, "scale", lambda: ctx.real("scale"))
    if scale is not None:
        ctx.assume(D.real(scale) > 0)
    rot = D.opt(ctx, "rotation", lambda: ctx.real("angle"))
    if ctx.choose(2, "second use"):
        other = D.placed_box(I, ctx, b.slide)
        im.put(I, other)
    im.put(I, b, scale=scale, rotation=rot)
    items = D.emitted(I, ctx, b)
    s, x, y, w, h = im.scale(ctx, b.layout._rect, scale)
    if kind == "bitmap":
        el = D.one(ctx, items, "image")
        ctx.reach("bitmap")
        D.eq_nums(ctx, "bitmap: place and size",
                  [D.read(ctx, k, D.number, el.attrs.get(k, 0)) for k in ("x", "y", "width", "height")], [x, y, w, h])
        D.check_rotation(ctx, D.read(ctx, "transform", D.transform, el.attrs.get("transform")), rot,
                         x + w / 2, y + h / 2)
        import base64
        ctx.prove("the data of the picture", el.attrs.get("xlink:href")
                  == "data:image/png;base64," + base64.b64encode(b"data").decode())
    else:
        el = D.one(ctx, items, "g")
        ctx.reach("svg")
        tr = D.read(ctx, "transform", D.transform, el.attrs.get("transform"))
        cut = [i for i, (f, a) in enumerate(tr) if f == "translate"]
        ctx.prove("svg: moved once", len(cut) == 1)
        i = cut[0]
        D.check_rotation(ctx, tr[:i], rot, x + w / 2, y + h / 2)
        D.eq_nums(ctx, "svg: place", tr[i][1], [x, y])
        rest = tr[i + 1:]
        ctx.prove("svg: scaled after", len(rest) <= 1 and all(f == "scale" and len(a) in (1, 2) for f, a in rest))
        for q in (rest[0][1] if rest else [1]):
            ctx.prove("svg: scale", D.real(q) == s)
        ok = len(el.items) == 1 and el.items[0][0] == "raw" and isinstance(el.items[0][1], D.Markup)
        ctx.prove("svg: the image is embedded once", ok)
