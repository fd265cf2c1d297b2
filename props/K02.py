"""K02 Cairo shapes and views."""
import io
import math
import os
from pyvc.api import bounded, unit
from pyvc import caps, decks
from elsie import TextStyle
from elsie.utils.geom import Rect
from elsie.render.backends.cairo.rcontext import CairoRenderingContext


def view(fmt, w, h, vb):
    k = 0.75 if fmt == "pdf" else 1
    s, ox, oy = 1, 0, 0
    if vb:
        s = min(w / vb[2], h / vb[3])
        ox, oy = (w - vb[2] * s) / 2 - vb[0] * s, (h - vb[3] * s) / 2 - vb[1] * s
    return lambda p: (k * (ox + s * p[0]), k * (oy + s * p[1])), k * s


def rot(p, c, deg):
    """clockwise on the page (y grows downwards)"""
    a = math.radians(deg or 0)
    x, y = p[0] - c[0], p[1] - c[1]
    return (c[0] + x * math.cos(a) - y * math.sin(a), c[1] + x * math.sin(a) + y * math.cos(a))


def rect_outline(r, rx=0, ry=0, n=16):
    rx, ry = min(rx, r.width / 2), min(ry, r.height / 2)
    if not rx or not ry:
        return [(r.x, r.y), (r.x + r.width, r.y), (r.x + r.width, r.y + r.height), (r.x, r.y + r.height), (r.x, r.y)]
    out = []
    for cx, cy, a0 in ((r.x + r.width - rx, r.y + ry, -90), (r.x + r.width - rx, r.y + r.height - ry, 0),
                       (r.x + rx, r.y + r.height - ry, 90), (r.x + rx, r.y + ry, 180)):
        for i in range(n + 1):
            a = math.radians(a0 + 90 * i / n)
            out.append((cx + rx * math.cos(a), cy + ry * math.sin(a)))
    return out + [out[0]]


def ellipse_outline(r, n=72):
    return [(r.x + r.width / 2 * (1 + math.cos(2 * math.pi * i / n)), r.y + r.height / 2 * (1 + math.sin(2 * math.pi * i / n)))
            for i in range(n + 1)]


def refine(ps):
    step = sum(math.hypot(a[0] - b[0], a[1] - b[1]) for a, b in zip(ps, ps[1:])) / 40 + 1e-9
    out = [ps[0]]
    for a, b in zip(ps, ps[1:]):
        k = max(1, int(math.hypot(a[0] - b[0], a[1] - b[1]) / step))
        out += [(a[0] + (b[0] - a[0]) * i / k, a[1] + (b[1] - a[1]) * i / k) for i in range(1, k + 1)]
    return out


@bounded("shapes", "random rectangles (plain and rounded, also with radii above half a side), ellipses, polygons and "
                   "polylines with random rotations, with and without view box, PDF and PNG: outline of every fill and "
                   "stroke, colours, width and dashes, and the transformation afterwards")
def shapes(B):
    rng = B.rng
    for it in range(B.n(500, 8000)):
        fmt = rng.choice(["pdf", "png"])
        vb = rng.choice([None, (0, 0, 200, 50), (10, -20, 60, 80), (-5, 5, 300, 200)])
        rc = CairoRenderingContext(200, 150, export_format=fmt, viewbox=vb)
        f, sc = view(fmt, 200, 150, vb)
        with caps.capture() as rec:
            rc.draw_rect(Rect(0, 0, 1, 1), color="red")
        m0 = rec.ops[0]["m"]
        todo, want, log = [], [], []
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(["rect", "rounded", "ellipse", "polygon", "polyline"])
            deg = rng.choice([None, 0, 10, 45, 90, -30, 123])
            x, y, w, h = rng.randint(-20, 100), rng.randint(-20, 100), rng.randint(4, 120), rng.randint(4, 120)
            if rng.random() < 0.2:
                h = w
            r = Rect(x, y, w, h)
            kw = {}
            if rng.random() < 0.6:
                kw["bg_color"] = rng.choice(["#0000ff", "blue"])
            if rng.random() < 0.8 or k == "polyline" or not kw:
                kw["color"] = rng.choice(["red", "#ff0000"])
            if rng.random() < 0.5:
                kw["stroke_width"] = rng.choice([1, 2.5, 4])
            if rng.random() < 0.3:
                kw["stroke_dasharray"] = rng.choice(["4", "4 2", "1.5 2 3"])
            if k == "polyline":
                kw.pop("bg_color", None)
            c = (x + w / 2, y + h / 2)
            if k == "rect":
                call = lambda r=r, deg=deg, kw=kw: rc.draw_rect(r, rotation=deg, **kw)
                out = rect_outline(r)
            elif k == "rounded":
                rx, ry = rng.choice([(3, 3), (10, 4), (2, 12), (50, 30), (3, None), (None, 5), (200, 200)])
                call = lambda r=r, deg=deg, kw=kw, rx=rx, ry=ry: rc.draw_rect(r, rx=rx, ry=ry, rotation=deg, **kw)
                out = rect_outline(r, rx if rx is not None else ry, ry if ry is not None else rx)
                log.append((rx, ry))
            elif k == "ellipse":
                call = lambda r=r, deg=deg, kw=kw: rc.draw_ellipse(r, rotation=deg, **kw)
                out = ellipse_outline(r)
            else:
                pts = [(rng.randint(-20, 150), rng.randint(-20, 150)) for _ in range(rng.randint(3, 6))]
                if k == "polygon":
                    c = (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts))
                    call = lambda pts=pts, deg=deg, kw=kw: rc.draw_polygon(pts, rotation=deg, **kw)
                    out = pts + [pts[0]]
                else:
                    deg = None
                    call = lambda pts=pts, kw=kw: rc.draw_polyline(pts, **kw)
                    out = pts
            log.append((k, (x, y, w, h), deg, kw))
            want.append(([f(rot(p, c, deg)) for p in out], kw))
            todo.append(call)
        B.case((fmt, vb, log))
        for call, (out, kw), l in zip(todo, want, [l for l in log if len(l) == 4]):
            with caps.capture() as rec:
                call()
                rc.draw_rect(Rect(1, 2, 3, 4), color="green")
            last = rec.ops.pop()
            B.check(all(abs(a - b) < 1e-9 for a, b in zip(last["m"], m0)), "transformation afterwards", got=last["m"],
                    want=m0, shape=l)
            B.eq((last["dash"], last["width"]), ([], 1), "dashes and width afterwards", shape=l)
            B.eq([o["op"] for o in rec.ops], (["fill"] if "bg_color" in kw else []) + (
                ["stroke"] if "color" in kw else []), "fill and stroke", shape=l)
            for o in rec.ops:
                B.eq(len(o["subs"]), 1, "one outline", shape=l)
                got = caps.dense(o["subs"][0], 10)
                tol = 0.06 + 0.002 * sc * 120
                hd = caps.hausdorff(refine(got), refine(out))
                B.check(hd < tol, "outline of the shape", distance=hd, got=got[::6], want=out[::6], shape=l)
                if o["op"] == "fill":
                    B.eq(o["rgb"], (0, 0, 1), "fill colour", shape=l)
                else:
                    B.eq(o["rgb"], (1, 0, 0), "stroke colour", shape=l)
                    B.eq(o["width"], kw.get("stroke_width", 1), "stroke width", shape=l)
                    # the pen is not distorted: the transformation of the stroke is a rotation with one scale
                    m = o["m"]
                    B.check(abs(m[0] - m[3]) < 1e-6 and abs(m[1] + m[2]) < 1e-6 and
                            abs(math.hypot(m[0], m[1]) - sc) < 1e-6, "pen is not distorted", m=m, shape=l)
                    B.eq([float(v) for v in o["dash"]],
                         [float(v) for v in kw.get("stroke_dasharray", "").split()], "dashes", shape=l)


QUAD = (("<svg xmlns='http://www.w3.org/2000/svg' width='%d' height='%d'>"
         "<rect x='0' y='0' width='%d' height='%d' fill='#ff0000'/><rect x='%d' y='0' width='%d' height='%d' fill='#00ff00'/>"
         "<rect x='0' y='%d' width='%d' height='%d' fill='#0000ff'/><rect x='%d' y='%d' width='%d' height='%d' "
         "fill='#ff00ff'/></svg>"))
COLORS = [(255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 0, 255)]


def quad_svg(w, h):
    a, b = w // 2, h // 2
    return QUAD % (w, h, a, b, a, a, b, b, a, b, a, b, a, b)


def quad_png(w, h):
    from PIL import Image
    im = Image.new("RGB", (w, h))
    for x in range(w):
        for y in range(h):
            im.putpixel((x, y), COLORS[(x >= w // 2) + 2 * (y >= h // 2)])
    o = io.BytesIO()
    im.save(o, "png")
    return o.getvalue()


@bounded("images", "SVG and PNG images of four coloured quarters at random places, sizes and rotations, with and without "
                   "view box, several after each other: colour of the pixels inside every quarter and outside")
def images(B):
    from PIL import Image
    rng = B.rng
    for it in range(B.n(60, 900)):
        vb = rng.choice([None, None, (0, 0, 200, 50), (10, -20, 100, 160)])
        rc = CairoRenderingContext(200, 150, export_format="png", viewbox=vb)
        f, sc = view("png", 200, 150, vb)
        rc.draw_rect(Rect(-500, -500, 2000, 2000), bg_color="white")
        x, y, w, h = rng.randint(0, 60), rng.randint(0, 60), rng.randint(20, 70), rng.randint(20, 70)
        deg = rng.choice([None, 0, 30, 90, -45])
        kind = rng.choice(["svg", "png"])
        if rng.random() < 0.3:
            B.case(("rotated before",), trivial=True)
            rc.draw_ellipse(Rect(-400, -400, 10, 4), rotation=20, color="red")
        iw, ih = rng.choice([(4, 2), (10, 10), (2, 6)])
        if kind == "svg":
            h = w * ih / iw
            rc.draw_svg(quad_svg(iw, ih), x, y, w, h, rotation=deg)
        else:
            rc.draw_bitmap(x, y, w, h, quad_png(iw * 8, ih * 8), rotation=deg, extension="png")
        B.case((kind, x, y, w, h, deg, vb, iw, ih))
        rc.surface.flush()
        data = bytes(rc.surface.get_data())
        im = Image.frombuffer("RGBA", (200, 150), data, "raw", "BGRA", 0, 1)
        c = (x + w / 2, y + h / 2)
        probes = []
        for i, col in enumerate(COLORS):
            for u, v in ((0.25, 0.25), (0.12, 0.12), (0.38, 0.38), (0.12, 0.38), (0.38, 0.12)):
                probes.append(((x + w * (u + 0.5 * (i % 2)), y + h * (v + 0.5 * (i // 2))), col))
        m = 3 / sc
        for q in ((x - m, y + h / 2), (x + w + m, y + h / 2), (x + w / 2, y - m), (x + w / 2, y + h + m),
                  (x - m, y - m), (x + w + m, y + h + m)):
            probes.append((q, (255, 255, 255)))
        small = min(w, h) * sc < 14
        for q, col in probes:
            p = f(rot(q, c, deg))
            ip = (int(math.floor(p[0])), int(math.floor(p[1])))
            if small or not (1 <= ip[0] < 199 and 1 <= ip[1] < 149):
                continue
            got = im.getpixel(ip)[:3]
            B.check(all(abs(a - b) < 60 for a, b in zip(got, col)), "colour of the pixel at %s (image point %s)" % (p, q),
                    got=got, want=col)


@bounded("failures", "drawing calls that fail (unknown colours, broken images, missing styles) leave the transformation "
                     "as it was")
def failures(B):
    style = TextStyle(font="sans", size=10, color="nocolor", align="left", line_spacing=1.0, bold=False, italic=False)
    R = Rect(10, 10, 30, 20)
    for vb in (None, (0, 0, 50, 50)):
        for fmt in ("pdf", "png"):
            calls = [lambda rc: rc.draw_rect(R, rotation=30, color="nocolor"),
                     lambda rc: rc.draw_rect(R, rotation=30, bg_color="nocolor"),
                     lambda rc: rc.draw_rect(R, rx=2, ry=2, rotation=30, bg_color="#12"),
                     lambda rc: rc.draw_rect(R, rotation=3, color="red", stroke_dasharray="a"),
                     lambda rc: rc.draw_ellipse(R, rotation=30, bg_color="nocolor"),
                     lambda rc: rc.draw_ellipse(R, rotation=30, color="nocolor"),
                     lambda rc: rc.draw_ellipse(R, rotation=30, color="red", stroke_dasharray="x"),
                     lambda rc: rc.draw_polygon([(1, 2), (3, 4), (5, 2)], rotation=30, color="nocolor"),
                     lambda rc: rc.draw_polygon([(1, 2), (3, "a"), (5, 2)], rotation=30, color="red"),
                     lambda rc: rc.draw_polyline([(1, 2), (3, "a"), (5, 2)], color="red"),
                     lambda rc: rc.draw_path([("M", [(1, 2)]), ("L", [("a", 2)])], color="red"),
                     lambda rc: rc.draw_bitmap(1, 2, 3, 4, b"broken", rotation=20, extension="png"),
                     lambda rc: rc.draw_svg("<svg", 1, 2, 3, 4, rotation=20),
                     lambda rc: rc.draw_text(R, 1, 2, [("text", "a")], style, {"default": style}, rotation=40)]
            for i, call in enumerate(calls):
                rc = CairoRenderingContext(100, 80, export_format=fmt, viewbox=vb)
                B.case((i, vb, fmt))
                with caps.capture() as rec:
                    rc.draw_rect(Rect(0, 0, 1, 1), color="red")
                m0 = rec.ops[-1]["m"]
                try:
                    call(rc)
                except Exception:
                    pass
                with caps.capture() as rec:
                    rc.draw_rect(Rect(0, 0, 1, 1), color="red")
                B.check(all(abs(a - b) < 1e-9 for a, b in zip(rec.ops[-1]["m"], m0)),
                        "transformation after a failed drawing", got=rec.ops[-1]["m"], want=m0, call=i)


@bounded("degenerate", "shapes and images of zero extent draw nothing visible and do not break the context")
def degenerate(B):
    for w, h in ((0, 10), (10, 0), (0, 0)):
        for deg in (None, 30):
            rc = CairoRenderingContext(100, 80, export_format="png")
            r = Rect(5, 5, w, h)
            for i, call in enumerate((lambda: rc.draw_ellipse(r, rotation=deg, color="red", bg_color="blue"),
                         lambda: rc.draw_rect(r, rotation=deg, color="red", bg_color="blue"),
                         lambda: rc.draw_rect(r, rx=2, ry=2, rotation=deg, bg_color="blue"),
                         lambda: rc.draw_bitmap(5, 5, w, h, quad_png(4, 4), rotation=deg, extension="png"),
                         lambda: rc.draw_svg(quad_svg(4, 4), 5, 5, w, h, rotation=deg))):
                B.case((w, h, deg, i))
                call()
                with caps.capture() as rec:
                    rc.draw_rect(Rect(0, 0, 10, 10), bg_color="red")
                got = caps.dense(rec.ops[0]["subs"][0])
                B.check(caps.hausdorff(got, [(0, 0), (10, 0), (10, 10), (0, 10), (0, 0)]) < 0.05, "next shape", got=got)


# ------------------------------------------------------------------ proofs
SHAPE = ("start", "line", "curve", "close")


def local(ctx, p, sc):
    """a page point before the rotation (sine and cosine replaced by those of no rotation)"""
    import z3
    from props._draw import real
    if sc is None:
        return tuple(real(v) for v in p)
    (s, c) = sc
    return tuple(z3.simplify(z3.substitute(real(v), (s, z3.RealVal(0)), (c, z3.RealVal(1)))) for v in p)


def pieces(path):
    """closed outline as [(kind, from, control points, to)] without empty lines"""
    from pyvc.core import Unsupported
    out, cur, first = [], None, None
    closed = False
    for e in path:
        if closed:
            raise Unsupported("several outlines")
        pts = [e[i:i + 2] for i in range(1, len(e), 2)]
        if e[0] == "start":
            cur = first = pts[0]
        elif e[0] == "line":
            out.append(("line", cur, (), pts[0]))
            cur = pts[0]
        elif e[0] == "curve":
            out.append(("curve", cur, tuple(pts[:2]), pts[2]))
            cur = pts[2]
        elif e[0] == "close":
            out.append(("line", cur, (), first))
            closed = True
        else:
            raise Unsupported("outline with %s" % (e[0],))
    return out


def same_outline(ctx, name, got, want, eq):
    """the same closed outline, from whichever corner and in whichever direction"""
    import z3
    n = len(want)
    lines = [p for p in got if p[0] == "line"]
    got = [p for p in got if p[0] != "line" or p is not lines[-1] or len(got) == n or not ctx.valid(eq(p[1], p[3]))]
    if len(got) != n:
        ctx.prove(name, False)
        return
    back = [(k, q, tuple(reversed(c)), p) for k, p, c, q in reversed(got)]
    first = None
    for seq in (got, back):
        for i in range(n):
            s = seq[i:] + seq[:i]
            if [p[0] for p in s] != [p[0] for p in want]:
                continue
            f = z3.And(*[w[4](p) for p, w in zip(s, want)])
            if first is None:
                first = f
            if ctx.valid(f):
                ctx.prove(name, f)
                return
    ctx.prove(name, first if first is not None else False)


def between(v, lo, hi):
    import z3
    return z3.Or(z3.And(lo <= v, v <= hi), z3.And(hi <= v, v <= lo))


class Drawing:
    """a context, the paint asked for, and what must hold of it afterwards"""

    def __init__(self, ctx, failing=False, fill=True, simple=False):
        import z3
        from pyvc.core import SStr, to_z3
        from pyvc.interp import Interp
        from pyvc.values import Base, VSeq
        from props import _cairo as C, _draw as D
        self.C, self.D, self.ctx = C, D, ctx
        self.I = I = Interp(ctx)
        self.rc, self.c = C.context(I, ctx, failing)
        which = ctx.choose(2 if simple else 3, "paint") if fill else 1
        I.sites.append("paint %d" % which)
        self.bg = D.text(ctx, "background") if which != 1 else None
        self.col = D.text(ctx, "colour") if which != 0 else None
        self.width = None if simple else D.opt(ctx, "stroke width", lambda: ctx.real("stroke_width"))
        if self.width is not None:
            ctx.assume(to_z3(self.width) > 0)
        self.base = None
        dash = None
        NUM = z3.Function("number_of", z3.StringSort(), z3.RealSort())
        if not simple and ctx.choose(2, "dashes"):
            dash = D.text(ctx, "dashes")
            self.base = Base(ctx.int("n_dashes"), "dashes")
            ctx.assume(to_z3(self.base.n) >= 1)
            DASH = z3.Function("dash_text", z3.IntSort(), z3.StringSort())
            self.dash = lambda k: NUM(DASH(k))

            def split(s, *a):
                from pyvc.core import Unsupported
                if a or s is not dash:
                    raise Unsupported("split")
                return VSeq(self.base, lambda k: SStr((DASH(k),)))

            def as_float(I, x=0.0):
                from pyvc.core import mk
                from pyvc.interp import m_float
                from pyvc.values import mark
                if isinstance(x, SStr) and not isinstance(x.parts[0], str) and x.parts[0].decl().eq(DASH):
                    if failing and not self.c.failed and self.ctx.choose(2, "not a number"):
                        self.c.failed = True
                        raise mark(ValueError("could not convert string to float"))
                    return mk(NUM(to_z3(x)))
                return m_float(I, x)
            split.__module__ = as_float.__module__ = "props.K02"
            ctx.str_hooks["split"] = split
            I.models[float] = as_float
        self.kw = {}
        if self.bg is not None:
            self.kw["bg_color"] = self.bg
        if self.col is not None:
            self.kw["color"] = self.col
        if self.width is not None:
            self.kw["stroke_width"] = self.width
        if dash is not None:
            self.kw["stroke_dasharray"] = dash
        self.state0 = dict(self.c.state)

    def turn(self):
        """rotation: none or any angle"""
        from pyvc.trig import sincos
        import z3
        ctx = self.ctx
        angle = self.D.opt(ctx, "rotated", lambda: ctx.real("angle"))
        self.sc = None
        if angle is not None:
            self.sc = sincos(ctx, self.D.real(angle) * z3.RealVal(repr(math.pi)) / 180)
        return angle

    def rect(self, zero=True):
        from pyvc.core import to_z3
        ctx = self.ctx
        r = Rect(*(ctx.real(n) for n in ("x", "y", "width", "height")))
        for v in (r.width, r.height):
            ctx.assume(to_z3(v) >= 0 if zero else to_z3(v) > 0)
        self.x, self.y, self.w, self.h = (self.D.real(v) for v in (r.x, r.y, r.width, r.height))
        self.mid = (self.x + self.w / 2, self.y + self.h / 2)
        return r

    def painted(self):
        """colours, width, dashes; the graphics state afterwards"""
        ctx, c = self.ctx, self.c
        ctx.reach("drawn")
        want = (["fill"] if self.bg is not None else []) + (["stroke"] if self.col is not None else [])
        ctx.prove("fill and stroke as asked", [o["op"] for o in c.ops] == want)
        for o in c.ops:
            if o["rgb"] is None:
                ctx.prove("the colour", False)
            else:
                self.D.eq_nums(ctx, "the colour", o["rgb"], self.C.rgb(self.bg if o["op"] == "fill" else self.col))
            if o["op"] == "stroke":
                self.pen(o)
        self.left()

    def pen(self, o):
        import z3
        from pyvc.values import VSeq
        ctx, real = self.ctx, self.D.real
        ctx.prove("the stroke width", real(o["width"]) == (1 if self.width is None else real(self.width)))
        a, b, c, d = [real(v) for v in o["m"][:4]]
        ctx.prove("the pen is not distorted", z3.And(a == d, b == -c, a * a + b * b == 1))
        if self.base is None:
            ctx.prove("the dashes", o["dash"] is None)
        else:
            ds = o["dash"]
            ok = isinstance(ds, VSeq) and ds.base is self.base and ds.guard is None
            ctx.prove("the dashes", ok)
            if ok:
                j = ctx.fresh("j", z3.IntSort())
                ctx.assume(z3.And(j >= 0, j < self.base.n))
                ds.inst(j)
                ctx.prove("the dashes", z3.And(ds.lo == 0, ds.hi == self.base.n, real(ds.at(j)) == self.dash(j)))

    def left(self):
        c = self.c
        self.ctx.prove("the transformation and the pen are as before",
                       not c.saved and c.m is self.C.IDENT and c.state == self.state0)

    def page(self, about):
        return self.C.rotation(self.ctx, self.angle, *about)

    def rotated(self, name, pts):
        """page points are their unrotated versions, turned about the middle"""
        import z3
        C, ctx = self.C, self.ctx
        m = self.page(self.mid)
        for p in pts:
            q = C.apply(m, *local(ctx, p, self.sc))
            ctx.prove(name, z3.And(*[self.C.norm(self.D.real(a) - b) == 0 for a, b in zip(p, q)]))


def corners(x, y, w, h):
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]


def eq2(a, b):
    import z3
    return z3.And(a[0] == b[0], a[1] == b[1])


@unit("a rectangle is drawn turned about its centre", budget=120)
def u_rect(ctx):
    d = Drawing(ctx)
    r = d.rect()
    d.angle = d.turn()
    d.I.call(d.rc.draw_rect, (r,), dict(d.kw, rotation=d.angle))
    cs = corners(d.x, d.y, d.w, d.h)
    for o in d.c.ops:
        ps = pieces(o["path"])
        d.rotated("turned about the centre", [p[1] for p in ps])
        ps = [(k, local(ctx, p, d.sc), tuple(local(ctx, q, d.sc) for q in c), local(ctx, e, d.sc)) for k, p, c, e in ps]
        want = [("line", None, None, None, lambda p, a=a, b=b: _and(eq2(p[1], a), eq2(p[3], b)))
                for a, b in zip(cs, cs[1:] + cs[:1])]
        same_outline(ctx, "the outline of the rectangle", ps, want, eq2)
    d.painted()


def _and(*fs):
    import z3
    return z3.And(*fs)


@unit("a rounded rectangle has the given radii, limited to half its sides", budget=200)
def u_rounded(ctx):
    import z3
    from pyvc.core import to_z3
    d = Drawing(ctx, simple=True)
    r = d.rect()
    d.angle = d.turn()
    kw = dict(d.kw, rotation=d.angle)
    which = ctx.choose(3, "radii")
    rx = ctx.real("rx") if which != 1 else None
    ry = ctx.real("ry") if which != 0 else None
    for v in (rx, ry):
        if v is not None:
            ctx.assume(to_z3(v) > 0)
    if ctx.choose(2, "given as") == 0:
        kw.update(rx=rx, ry=ry)
    else:
        kw.update({k: v for k, v in (("rx", rx), ("ry", ry)) if v is not None})
    d.I.call(d.rc.draw_rect, (r,), kw)
    a, b = [to_z3(v) for v in (rx if rx is not None else ry, ry if ry is not None else rx)]
    a, b = z3.If(a > d.w / 2, d.w / 2, a), z3.If(b > d.h / 2, d.h / 2, b)
    x, y, w, h = d.x, d.y, d.w, d.h
    cs = corners(x, y, w, h)
    starts = [(x + w - a, y), (x + w, y + h - b), (x + a, y + h), (x, y + b)]
    ends = [(x + w, y + b), (x + w - a, y + h), (x, y + h - b), (x + a, y)]
    outer = cs[1:] + cs[:1]

    def arc(p, s, e, o):
        (c1, c2) = p[2]
        fs = [eq2(p[1], s), eq2(p[3], e)]
        for c, q in ((c1, s), (c2, e)):
            for i in (0, 1):
                t = o[i] - q[i]
                fs.append(between(c[i] - q[i], z3.Q(545, 1000) * t, z3.Q(56, 100) * t))
        return z3.And(*fs)
    want = []
    for i in range(4):
        want.append(("line", None, None, None, lambda p, i=i: z3.And(eq2(p[1], ends[i - 1]), eq2(p[3], starts[i]))))
        want.append(("curve", None, None, None, lambda p, i=i: arc(p, starts[i], ends[i], outer[i])))
    for o in d.c.ops:
        ps = pieces(o["path"])
        d.rotated("turned about the centre", [q for p in ps for q in (p[1],) + p[2]])
        ps = [(k, local(ctx, p, d.sc), tuple(local(ctx, q, d.sc) for q in c), local(ctx, e, d.sc)) for k, p, c, e in ps]
        same_outline(ctx, "the outline of the rounded rectangle", ps, want, eq2)
    d.painted()


@unit("an ellipse has the axes of its rectangle and an even pen", budget=120)
def u_ellipse(ctx):
    import z3
    from pyvc.core import Unsupported
    d = Drawing(ctx)
    r = d.rect(False)
    d.angle = d.turn()
    d.I.call(d.rc.draw_ellipse, (r,), dict(d.kw, rotation=d.angle))
    m = d.page(d.mid)
    real = d.D.real
    for o in d.c.ops:
        if len(o["path"]) != 1 or o["path"][0][0] != "arc":
            raise Unsupported("ellipse without an arc")
        _, ctr, u, v, a1, a2 = o["path"][0]
        ctx.prove("centre of the ellipse", d.C.eq_pt(ctr, d.mid))
        full = isinstance(a1, (int, float)) and isinstance(a2, (int, float)) and abs(a2 - a1 - 2 * math.pi) < 1e-6
        ctx.prove("the whole ellipse", full)
        p = (m[0] * d.w / 2, m[1] * d.w / 2)
        q = (m[2] * d.h / 2, m[3] * d.h / 2)
        u, v = ([real(t) for t in s] for s in (u, v))
        ctx.prove("axes of the ellipse", z3.And(eq2(u, p), eq2(v, q)))
    d.painted()


@unit("an ellipse or image without extent draws nothing", budget=60)
def u_nothing(ctx):
    from pyvc.core import to_z3
    d = Drawing(ctx)
    r = d.rect()
    ctx.assume(_or(to_z3(r.width) == 0, to_z3(r.height) == 0))
    d.angle = d.turn()
    k = ctx.choose(3, "what")
    if k == 0:
        d.I.call(d.rc.draw_ellipse, (r,), dict(d.kw, rotation=d.angle))
    elif k == 1:
        d.I.call(d.rc.draw_bitmap, (r.x, r.y, r.width, r.height, b"data"), dict(rotation=d.angle))
    else:
        d.I.call(d.rc.draw_svg, ("<svg/>", r.x, r.y, r.width, r.height), dict(rotation=d.angle))
    ctx.reach("drawn")
    ctx.prove("nothing is drawn", not d.c.ops)
    d.left()


def _or(*fs):
    import z3
    return z3.Or(*fs)


class Line:
    """points of a polygon or polyline, and the outline through them"""

    def __init__(self, d, m, measured=True):
        import z3
        from pyvc.core import mk, to_z3
        from pyvc.values import Base, Measure, NotApplicable, VSeq
        from props import _box as X
        ctx, C, real = d.ctx, d.C, d.D.real
        R, Z = z3.RealSort(), z3.IntSort()
        GO, LN = (z3.Function(n, X.M, R, R, X.M) for n in ("path_start", "path_line"))
        MV = z3.Function("path_move", X.M, R, R, X.M)
        px, py = z3.Function("point_x", Z, R), z3.Function("point_y", Z, R)
        self.n = ctx.int("n_points")
        ctx.assume(to_z3(self.n) >= 1)
        self.base = Base(self.n, "points")
        kinds = {"start": GO, "move": MV, "line": LN}
        first = C.apply(m, px(0), py(0))

        def page(k):
            return C.apply(m, px(k), py(k))

        def seg(get, e):
            if type(e) is not tuple or type(e[0]) is not str:
                raise NotApplicable()
            if e[0] == "close":
                return LN(get("path"), *first)
            if e[0] not in kinds:
                raise NotApplicable()
            return kinds[e[0]](get("path"), *[real(v) for v in e[1:]])
        if measured:
            ctx.measures["path"] = Measure("path", X.M, X.START, seg)

        def step(k, G):
            return z3.If(k == 0, GO(to_z3(G("line")), *page(k)), LN(to_z3(G("line")), *page(k)))
        self.base.fold("line", X.M, X.START, step)
        self.base.at(z3.IntVal(0))
        self.seq = VSeq(self.base, lambda k: (mk(px(k)), mk(py(k))))
        self.px, self.py = px, py
        self.open = to_z3(self.base.G("line", to_z3(self.n)))
        self.closed = LN(self.open, *first)

    def centroid(self, d, at):
        """contract of find_centroid (proved separately)"""
        from pyvc.core import Unsupported
        from pyvc.values import VSeq
        import z3
        ctx = d.ctx

        def find(points):
            if not isinstance(points, VSeq) or points.base is not self.base or points.guard is not None:
                raise Unsupported("centroid of other points")
            j = ctx.fresh("j", z3.IntSort())
            e = points.at(j)
            ctx.prove("the centroid of the points", z3.And(
                points.lo == 0, points.hi == self.base.n, eq2([d.D.real(v) for v in e], (self.px(j), self.py(j)))))
            return at
        find.__module__ = "props.K02"
        ctx.contracts["utils.geom.find_centroid"] = find


@unit("a polygon is drawn turned about its centroid and closed", budget=200)
def u_polygon(ctx):
    from pyvc.values import mk_eq
    d = Drawing(ctx)
    d.angle = d.turn()
    at = (ctx.real("centroid_x"), ctx.real("centroid_y"))
    ln = Line(d, d.page(at))
    ln.centroid(d, at)
    d.I.call(d.rc.draw_polygon, (ln.seq,), dict(d.kw, rotation=d.angle))
    for o in d.c.ops:
        ctx.prove("the outline of the polygon", mk_eq(o["measures"]["path"], ln.closed))
    ctx.prove("the points are not modified", not ln.seq.mutated)
    d.painted()


@unit("a polyline is drawn through its points", budget=200)
def u_polyline(ctx):
    from pyvc.values import mk_eq
    d = Drawing(ctx, fill=False)
    ln = Line(d, d.C.IDENT)
    d.I.call(d.rc.draw_polyline, (ln.seq,), d.kw)
    for o in d.c.ops:
        ctx.prove("the outline of the polyline", mk_eq(o["measures"]["path"], ln.open))
    ctx.prove("the points are not modified", not ln.seq.mutated)
    d.painted()


@unit("the centroid is the mean of the points", budget=60)
def u_centroid(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import Base, VSeq
    from elsie.utils.geom import find_centroid
    I = Interp(ctx)
    R, Z = z3.RealSort(), z3.IntSort()
    px, py = z3.Function("point_x", Z, R), z3.Function("point_y", Z, R)
    n = ctx.int("n_points")
    ctx.assume(to_z3(n) >= 1)
    base = Base(n, "points")
    base.fold("sum_x", R, z3.RealVal(0), lambda k, G: to_z3(G("sum_x")) + px(k))
    base.fold("sum_y", R, z3.RealVal(0), lambda k, G: to_z3(G("sum_y")) + py(k))
    seq = VSeq(base, lambda k: (mk(px(k)), mk(py(k))), typ=tuple if ctx.choose(2, "tuple") else list)
    got = I.call(find_centroid, (seq,))
    ctx.reach("found")
    e = z3.ToReal(to_z3(n))
    for g, name in zip(got, ("sum_x", "sum_y")):
        ctx.prove("mean of the coordinates", to_z3(g) * e == to_z3(base.G(name, to_z3(n))))
    ctx.prove("a point", len(got) == 2)
    ctx.prove("the points are not modified", not seq.mutated)


@unit("a view box is scaled evenly to fit and centred", budget=60)
def u_viewbox(ctx):
    import z3
    from pyvc.core import to_z3
    from elsie.render.backends.cairo.draw import apply_viewbox
    d = Drawing(ctx, simple=True)
    real = d.D.real
    w, h, vx, vy, vw, vh = [ctx.real(n) for n in ("page_w", "page_h", "view_x", "view_y", "view_w", "view_h")]
    for v in (w, h, vw, vh):
        ctx.assume(to_z3(v) > 0)
    vb = (vx, vy, vw, vh)
    scale = d.I.call(apply_viewbox, (d.c, w, h, list(vb) if ctx.choose(2, "list") else vb))
    ctx.reach("applied")
    w, h, vx, vy, vw, vh = map(real, (w, h, vx, vy, vw, vh))
    a, b, c, e, x0, y0 = [real(v) for v in d.c.m]
    ctx.prove("scaled evenly, not turned", z3.And(a == e, b == 0, c == 0, a > 0))
    ctx.prove("fits the page", z3.And(a * vw <= w, a * vh <= h))
    ctx.prove("fills the page in one direction", z3.Or(a * vw == w, a * vh == h))
    ctx.prove("centred", z3.And(2 * (a * vx + x0) + a * vw == w, 2 * (a * vy + y0) + a * vh == h))
    ctx.prove("the factor of line widths", real(scale) == a)


class Picture:
    """PIL image by its contract"""
    _pyvc_stub = True

    def __init__(self, mode, w, h, origin=None):
        self.mode, self.width, self.height = mode, w, h
        self.origin = origin or self

    @property
    def size(self):
        return (self.width, self.height)

    def convert(self, mode):
        return Picture(mode, self.width, self.height, self.origin)

    def tobytes(self, encoder="raw", form=None):
        return Pixels(self, encoder, form)


class Pixels:
    _pyvc_stub = True

    def __init__(self, picture, encoder, form):
        self.picture, self.encoder, self.form = picture, encoder, form


class PixelSurface:
    _pyvc_stub = True

    def __init__(self, fmt, w, h, data):
        self.fmt, self.w, self.h, self.data = fmt, w, h, data
        self.sx = self.sy = 1.0

    def set_device_scale(self, sx, sy):
        self.sx, self.sy = sx, sy


@unit("a bitmap fills its rectangle, turned about the centre", budget=60)
def u_bitmap(ctx):
    import cairocffi
    import z3
    from PIL import Image
    from pyvc.core import Unsupported, to_z3
    d = Drawing(ctx, simple=True)
    real = d.D.real
    r = d.rect(False)
    d.angle = d.turn()
    iw, ih = ctx.int("image_width"), ctx.int("image_height")
    for v in (iw, ih):
        ctx.assume(to_z3(v) > 0)
    pic = Picture(["RGBA", "RGB"][ctx.choose(2, "mode")], iw, ih)

    def opened(I, fp, *a, **k):
        if a or k or fp.getvalue() != b"image data":
            raise Unsupported("opening an image")
        return pic

    def surface(I, format, width, height, data=None, stride=None):
        if stride is not None:
            raise Unsupported("stride")
        return PixelSurface(format, width, height, data)

    def barray(I, x=b""):
        return x if isinstance(x, Pixels) else I.native(bytearray, (x,), {})
    opened.__module__ = surface.__module__ = barray.__module__ = "props.K02"
    d.I.models[Image.open] = opened
    d.I.models[cairocffi.ImageSurface] = surface
    d.I.models[bytearray] = barray
    kw = dict(extension="png") if ctx.choose(2, "extension") else {}
    d.I.call(d.rc.draw_bitmap, (r.x, r.y, r.width, r.height, b"image data"), dict(kw, rotation=d.angle))
    ctx.reach("drawn")
    c = d.c
    if [o["op"] for o in c.ops] != ["paint"]:
        ctx.prove("the image is painted", bool(c.ops))
        raise Unsupported("image painted in another way")
    s, m = c.ops[0]["source"] or (None, None)
    if not isinstance(s, PixelSurface):
        ctx.prove("the image is painted", False)
        return
    p = s.data
    ctx.prove("all pixels of the image", isinstance(p, Pixels) and p.picture.origin is pic and p.picture.mode == "RGBA"
              and (p.encoder, p.form) == ("raw", "BGRa") and s.fmt == cairocffi.FORMAT_ARGB32)
    ctx.prove("the size of the image", _and(real(s.w) == real(iw), real(s.h) == real(ih)))
    want = d.page(d.mid)
    sx, sy, W, H = real(s.sx), real(s.sy), real(iw), real(ih)
    # one pixel to the right and one down, on the page
    ctx.prove("width and direction", _and(*[m[i] * W == want[i] * d.w * sx for i in (0, 1)]))
    ctx.prove("height and direction", _and(*[m[i] * H == want[i] * d.h * sy for i in (2, 3)]))
    ctx.prove("the corner", d.C.eq_pt(m[4:], d.C.apply(want, d.x, d.y)))
    d.left()


@unit("a rectangle or ellipse leaves the transformation as it was even if it fails", budget=120)
def u_failing_shape(ctx):
    d = Drawing(ctx, failing=True, simple=True)
    r = d.rect(False)
    kw = dict(d.kw, rotation=None if ctx.choose(2, "rotated") else ctx.real("angle"), stroke_dasharray="4 2")
    kind = ctx.choose(3, "drawing")
    d.I.sites.append("kind %d" % kind)
    if kind == 1:
        kw.update(rx=3.0, ry=2.0)
    failing(d, d.rc.draw_ellipse if kind == 2 else d.rc.draw_rect, (r,), kw)


@unit("a polygon leaves the transformation as it was even if it fails", budget=120)
def u_failing_polygon(ctx):
    d = Drawing(ctx, failing=True, simple=True)
    ln = Line(d, d.C.IDENT, False)
    ln.centroid(d, (ctx.real("centroid_x"), ctx.real("centroid_y")))
    failing(d, d.rc.draw_polygon, (ln.seq,), dict(d.kw, rotation=None if ctx.choose(2, "rotated") else ctx.real("angle")))


@unit("a polyline leaves the transformation as it was even if it fails", budget=120)
def u_failing_polyline(ctx):
    d = Drawing(ctx, failing=True, fill=False, simple=True)
    ln = Line(d, d.C.IDENT, False)
    failing(d, d.rc.draw_polyline, (ln.seq,), dict(d.kw, stroke_dasharray="4 2"))


@unit("an image leaves the transformation as it was even if it fails", budget=60)
def u_failing_image(ctx):
    import cairocffi
    from PIL import Image
    d = Drawing(ctx, failing=True, simple=True)
    r = d.rect(False)

    def opened(I, fp):
        d.c._fail()
        return Picture("RGBA", 3, 4)
    opened.__module__ = "props.K02"
    d.I.models[Image.open] = opened
    d.I.models[cairocffi.ImageSurface] = lambda I, format, width, height, data: PixelSurface(format, width, height, data)
    d.I.models[bytearray] = lambda I, x: x
    failing(d, d.rc.draw_bitmap, (r.x, r.y, r.width, r.height, b"data"), dict(extension="png", rotation=30))


@unit("a path leaves the transformation as it was even if it fails", budget=120)
def u_failing_path(ctx):
    d = Drawing(ctx, failing=True, simple=True)
    from pyvc.values import VList
    commands = VList(tag="commands")

    def outline(c, commands_):
        """the outline of a path (K01): changes nothing but the current outline"""
        ctx.prove("the path is drawn", c is d.c and commands_ is commands)
        c.move_to(1.0, 2.0)
        c.line_to(3.0, 4.0)
    outline.__module__ = "props.K02"
    ctx.contracts["render.backends.cairo.shapes.draw_path"] = outline
    failing(d, d.rc.draw_path, (commands,), d.kw)


def failing(d, f, args, kw):
    from pyvc.core import EngineSignal
    ctx = d.ctx
    try:
        d.I.call(f, args, kw)
    except EngineSignal:
        raise
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False) or not d.c.failed:
            raise
        ctx.reach("failed")
    else:
        ctx.reach("drawn")
        ctx.prove("no failure is hidden", not d.c.failed)
    ctx.prove("the transformation is as before", not d.c.saved and d.c.m is d.C.IDENT)
    ctx.prove("the pen is as before", d.c.state == d.state0)


@unit("an SVG image fills its rectangle, turned about the centre", budget=60)
def u_svg(ctx):
    """cairosvg by its contract: an SVG is drawn from the origin of the surface's context in the size the context is set to"""
    import cairocffi
    import z3
    from cairosvg.parser import Tree
    from cairosvg.surface import Surface
    from elsie.render.backends.cairo import svg as M
    from pyvc.core import Unsupported
    from props import _cairo as C
    d = Drawing(ctx, simple=True)
    real = d.D.real
    r = d.rect(False)
    d.angle = d.turn()
    page = object()
    d.rc.surface = page
    d.rc.cairosvg_dpi = 72
    d.c.m = m0 = tuple(real(ctx.real("page_matrix_%d" % i)) for i in range(6))
    drawn = []

    class Nodes:
        _pyvc_stub = True
        url = None

        def get(self, name, default=None):
            return default
    tree = Nodes()

    def make_tree(I, bytestring=None, **k):
        if k or b"<svg" not in bytestring:
            raise Unsupported("reading an SVG")
        return tree

    class Target(C.Cairo):
        def __init__(self, I, ctx):
            C.Cairo.__init__(self, I, ctx)

        def set_matrix(self, m):
            self.m = m.m
    targets = []

    def context(I, surface):
        if surface is not page:
            ctx.prove("drawn on the page", False)
        t = Target(I, ctx)
        targets.append(t)
        return t

    def context_size(I, self, width, height, viewbox, tree_):
        ctx.prove("the size of the image", _and(real(width) == d.w, real(height) == d.h))
        ctx.prove("its own view box", _and(*[real(a) == real(b) for a, b in zip(viewbox, vb or (0, 0, sw, sh))]))
        ctx.prove("placed before it is drawn", not drawn)
        drawn.append(self.context.m)

    def draw(I, self, node):
        ctx.prove("the image is drawn once", node is tree and drawn == [self.context.m])
        drawn.append("done")
    sw, sh = ctx.real("svg_width"), ctx.real("svg_height")
    for v in (sw, sh):
        ctx.assume(real(v) > 0)
    vb = tuple(ctx.real("svg_view_%d" % i) for i in range(4)) if ctx.choose(2, "own view box") else None

    def fmt(I, surface, node, reference=True):
        return (sw, sh, vb)
    for f in (make_tree, context, context_size, draw, fmt):
        f.__module__ = "props.K02"
    d.I.models.update({Tree: make_tree, cairocffi.Context: context, Surface.set_context_size: context_size,
                       Surface.draw: draw, M.node_format: fmt, M.size: lambda I, surface, s, ref="xy": 12.0})
    ctx.contracts["render.backends.cairo.utils.normalize_svg"] = keep
    d.I.call(d.rc.draw_svg, ("<svg xmlns='http://www.w3.org/2000/svg' width='3' height='4'/>", r.x, r.y, r.width,
                             r.height), dict(rotation=d.angle))
    ctx.reach("drawn")
    ctx.prove("the image is drawn once", len(drawn) == 2)
    want = C.mul(C.mul(m0, d.page(d.mid)), (1, 0, 0, 1, d.x, d.y))
    ctx.prove("the place of the image", _and(*[C.norm(real(a) - real(b)) == 0 for a, b in zip(drawn[0], want)]))
    ctx.prove("the transformation is as before", not d.c.saved and d.c.m is m0)


def keep(root):
    return root
