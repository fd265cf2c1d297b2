"""G01 arrows."""
import math
from pyvc.api import bounded, unit
from pyvc import decks
from elsie import Arrow


def rnd_arrow(rng):
    size = rng.choice([1, 5, 10, 13.5, 40])
    ang = rng.choice([10, 30, 40, 45, 60, 89])
    sw = rng.choice([None, None, 1, 3, 7.5])
    inner = rng.choice([None, None, 0.3, 1.0, 1.7])
    kw = {}
    if size != 10 or rng.random() < 0.5:
        kw["size"] = size
    if ang != 40 or rng.random() < 0.5:
        kw["angle"] = ang
    if sw is not None:
        kw["stroke_width"] = sw
    if inner is not None:
        kw["inner"] = inner
    return Arrow(**kw), (size, ang, sw, inner)


def points(el):
    v = decks.nums(el.get("points"))
    return list(zip(v[::2], v[1::2]))


def head(frm, tip, desc):
    """corners (unordered), inner point or None, by the statement"""
    size, ang, sw, inner = desc
    d = math.hypot(tip[0] - frm[0], tip[1] - frm[1])
    ux, uy = (frm[0] - tip[0]) / d, (frm[1] - tip[1]) / d      # from the tip back along the line
    a = math.radians(ang)
    cs = []
    for s in (1, -1):
        cs.append((tip[0] + size * (ux * math.cos(a) - s * uy * math.sin(a)),
                   tip[1] + size * (uy * math.cos(a) + s * ux * math.sin(a))))
    depth = size * math.cos(a)
    inn = None
    if inner is not None and sw is None:
        inn = (tip[0] + ux * depth * inner, tip[1] + uy * depth * inner)
    shift = depth / 2 if sw is None else sw / 2
    return cs, inn, (tip[0] + ux * shift, tip[1] + uy * shift)


def close(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1]) < 1e-6 * (1 + abs(q[0]) + abs(q[1]))


def check_head(B, el, frm, tip, desc, color, **data):
    cs, inn, _ = head(frm, tip, desc)
    got = points(el)
    st = decks.style_of(el)
    B.eq(el.tag, decks.SVG + ("polygon" if desc[2] is None else "polyline"), "kind of arrow head", **data)
    B.eq(st.get("fill"), color if desc[2] is None else "none", "fill of the head", **data)
    if desc[2] is None:
        B.check("stroke" not in st or st["stroke"] == "none", "stroke of a filled head", **data)
    else:
        B.eq((st.get("stroke"), float(st["stroke-width"])), (color, desc[2]), "stroke of an open head", **data)
    B.eq(len(got), 3 if inn is None else 4, "corners of the head", **data)
    B.check(close(got[1], tip), "the tip is at the end of the line", got=got, tip=tip, **data)
    ok = (close(got[0], cs[0]) and close(got[2], cs[1])) or (close(got[0], cs[1]) and close(got[2], cs[0]))
    B.check(ok, "corners at the size from the tip and at the angle on both sides", got=got, want=cs, **data)
    if inn is not None:
        B.check(close(got[3], inn), "inner point on the line", got=got[3], want=inn, **data)


@bounded("lines", "random lines of 2-6 points in boxes at random places, start and end arrows of random size, angle, "
                  "stroke and inner factor; fixed, relative and dynamic points; repeated rendering")
def lines(B):
    rng = B.rng
    for it in range(B.n(400, 8000)):
        d = decks.deck(width=800, height=600)
        s = d.new_slide()
        bx, by, w, h = rng.randint(0, 300), rng.randint(0, 200), rng.randint(50, 400), rng.randint(50, 300)
        b = s.box(x=bx, y=by, width=w, height=h)
        n = rng.choice([2, 2, 2, 3, 4, 6])
        given, want = [], []
        while len(given) < n:
            x, y = rng.choice([rng.randint(-50, 300), rng.uniform(0, 200)]), rng.randint(-50, 300)
            k = rng.randint(0, 3)
            if k == 0:
                p, q = (x, y), (bx + x, by + y)
            elif k == 1:
                px, py = rng.randint(0, 100), rng.randint(0, 100)
                p, q = ("%d%%" % px, "%d%%" % py), (bx + w * px / 100, by + h * py / 100)
            elif k == 2:
                p, q = b.p(x, y), (bx + x, by + y)
            else:
                p, q = b.p("50%", 0).add(x, y), (bx + w / 2 + x, by + y)
            if want and math.hypot(q[0] - want[-1][0], q[1] - want[-1][1]) < 1:
                continue
            given.append(p)
            want.append(q)
        sa = rnd_arrow(rng) if rng.random() < 0.6 else None
        ea = rnd_arrow(rng) if rng.random() < 0.6 else None
        if sa and rng.random() < 0.2:
            ea = sa
        sw = rng.choice([None, 2, 4])
        kw = {} if sw is None else {"stroke_width": sw}
        if rng.random() < 0.3:
            kw["stroke_dasharray"] = "4 2"
        b.line(given, color="blue", start_arrow=sa and sa[0], end_arrow=ea and ea[0], **kw)
        B.case((want, sa and sa[1], ea and ea[1], sw))
        pages = [decks.svgs(d)[0] for _ in range(2 if rng.random() < 0.2 else 1)]
        for pg in pages:
            els = [e for e in decks.parse(pg).iter() if e.tag in (decks.SVG + "polyline", decks.SVG + "polygon")]
            B.eq(len(els), 1 + bool(sa) + bool(ea), "line and heads")
            got = points(els[0])
            exp = list(want)
            if sa:
                exp[0] = head(want[1], want[0], sa[1])[2]
            if ea:
                exp[-1] = head(want[-2], want[-1], ea[1])[2]
            B.check(len(got) == len(exp) and all(close(g, e) for g, e in zip(got, exp)), "points of the line",
                    got=got, want=exp)
            st = decks.style_of(els[0])
            B.eq((st.get("stroke"), float(st["stroke-width"]), st.get("stroke-dasharray")),
                 ("blue", sw or 1, kw.get("stroke_dasharray")), "stroke of the line")
            i = 1
            if sa:
                check_head(B, els[i], want[1], want[0], sa[1], "blue", which="start")
                i += 1
            if ea:
                check_head(B, els[i], want[-2], want[-1], ea[1], "blue", which="end")


@bounded("directions", "arrow heads in 360 directions and of 5 lengths; the input points stay as given")
def directions(B):
    d = decks.deck(width=800, height=600)
    cases = []
    for deg in range(0, 360, 1 if B.thorough else 3):
        for ln in (3, 20, 500) if B.thorough else (20, 500):
            a = math.radians(deg)
            p, q = (300.0, 300.0), (300 + ln * math.cos(a), 300 + ln * math.sin(a))
            ar, desc = rnd_arrow(B.rng)
            s = d.new_slide()
            lst = [p, q]
            s.box(x=0, y=0, width=10, height=10).line(lst, end_arrow=ar)
            B.check(lst == [p, q], "given points")
            cases.append((p, q, desc))
    pages = decks.svgs(d)
    for (p, q, desc), pg in zip(cases, pages):
        B.case((p, q, desc))
        els = [e for e in decks.parse(pg).iter() if e.tag in (decks.SVG + "polyline", decks.SVG + "polygon")]
        got = points(els[0])
        B.check(close(got[0], p) and close(got[1], head(p, q, desc)[2]), "line", got=got)
        check_head(B, els[1], p, q, desc, "black")


@bounded("invalid", "lines of fewer than two points")
def invalid(B):
    d = decks.deck()
    for pts in ([], [(0, 0)]):
        B.case(pts)
        B.raises(lambda: d.new_slide().line(pts), "line of fewer than two points")


# ------------------------------------------------------------------ proofs
class HeadLog:
    """a rendering context that keeps the shapes"""
    _pyvc_stub = True

    def __init__(self, ctx):
        self._ctx, self.drawn = ctx, []

    def draw_polygon(self, points, **kw):
        self.drawn.append(("polygon", points, kw))

    def draw_polyline(self, points, **kw):
        self.drawn.append(("polyline", points, kw))


class AnyLine:
    """two different points: the tip and, at any distance in any direction from it, the point before"""

    def __init__(self, ctx):
        import z3
        from pyvc.core import mk
        from props._draw import R
        c = lambda n: z3.Const(n, R)
        self.d, self.ux, self.uy, self.tx, self.ty = c("distance"), c("back_x"), c("back_y"), c("tip_x"), c("tip_y")
        ctx.assume(z3.And(self.d > 0, self.ux * self.ux + self.uy * self.uy == 1))
        self.tip = (mk(self.tx), mk(self.ty))
        self.ctx = ctx
        self.frm = (mk(self.tx + self.d * self.ux), mk(self.ty + self.d * self.uy))


    def facts(self):
        """the length and the direction the code computed, as lemmas; a substitution by what they are"""
        import z3
        from pyvc.trig import SIN, COS
        ctx, sub = self.ctx, []
        for r in ctx.sqrt_terms:
            if ctx.valid(r == self.d):
                sub.append((r, self.d))
        for r, ey, ex, h in ctx.atan_terms:
            if ctx.valid(h == self.d):
                sub.append((h, self.d))
                for f, e in ((SIN(r), ey), (COS(r), ex)):
                    q = [v for v in (self.ux, -self.ux, self.uy, -self.uy) if ctx.valid(e == self.d * v)]
                    if q:
                        ctx.prove("the direction of the line", f == q[0])
                        sub.append((f, q[0]))
        return lambda e: z3.substitute(e, *sub)


def any_arrow(I, ctx):
    """(arrow, size, half opening as sine and cosine, stroke width or None, inner or None)"""
    import z3
    from pyvc.trig import sincos, PI
    from props import _draw as D
    size, angle = ctx.real("size"), ctx.real("angle")
    ctx.assume(D.real(size) > 0)
    kw = {"size": size, "angle": angle}
    sw = D.opt(ctx, "stroke", lambda: ctx.real("stroke_width"))
    inner = D.opt(ctx, "inner", lambda: ctx.real("inner"))
    if sw is not None:
        ctx.assume(D.real(sw) > 0)
        kw["stroke_width"] = sw
    if inner is not None:
        ctx.assume(D.real(inner) > 0)
        kw["inner"] = inner
    a = I.call(Arrow, (), kw)
    s, c = sincos(ctx, D.real(angle) * z3.RealVal(str(PI / 180)))
    return a, size, s, c, sw, inner


@unit("arrow heads: corners, inner point and tip")
def u_head(ctx):
    import z3
    from pyvc.interp import Interp
    from props import _draw as D
    I = Interp(ctx)
    ln = AnyLine(ctx)
    a, size, s, c, sw, inner = any_arrow(I, ctx)
    color = D.text(ctx, "colour")
    log = HeadLog(ctx)
    I.call(a.render, (log, ln.frm, ln.tip, color))
    ctx.prove("one head is drawn", len(log.drawn) == 1)
    kind, pts, kw = log.drawn[0]
    ctx.reach("open head" if sw is not None else "filled head")
    kw = {k: v for k, v in kw.items() if v is not None}
    if sw is not None:
        ctx.prove("an open head is a line", kind == "polyline")
        D.same(ctx, "an open head is stroked in the colour", kw.pop("color", None), color)
        ctx.prove("an open head has the stroke width", D.real(kw.pop("stroke_width", 0)) == D.real(sw))
    else:
        ctx.prove("a filled head is a polygon", kind == "polygon")
        D.same(ctx, "a filled head is filled with the colour", kw.pop("bg_color", None), color)
    ctx.prove("no other options", not kw)
    pts = [p for p in I.iterate(pts)]
    ctx.prove("number of corners", len(pts) == (4 if inner is not None and sw is None else 3))
    sz = D.real(size)
    want = [(ln.tx + sz * (ln.ux * c - g * ln.uy * s), ln.ty + sz * (ln.uy * c + g * ln.ux * s)) for g in (1, -1)]
    f = ln.facts()
    got = [tuple(f(D.real(v)) for v in p) for p in pts]

    def at(p, q):
        return z3.And(p[0] == q[0], p[1] == q[1])
    D.eq_nums(ctx, "the tip is the end of the line", list(pts[1]), list(ln.tip))
    straight = all(ctx.valid(at(got[i], want[j])) for i, j in ((0, 0), (2, 1)))
    for i, j in ((0, 0), (2, 1)) if straight else ((0, 1), (2, 0)):
        ctx.prove("the corners lie at the size from the tip and at the angle on both sides", at(got[i], want[j]))
    if len(pts) == 4:
        ctx.reach("inner point")
        depth = sz * c * D.real(inner)
        ctx.prove("the inner point lies on the line", at(got[3], (ln.tx + ln.ux * depth, ln.ty + ln.uy * depth)))


@unit("arrow heads: how far the line is shortened")
def u_shorten(ctx):
    from pyvc.interp import Interp
    from props import _draw as D
    I = Interp(ctx)
    ln = AnyLine(ctx)
    a, size, s, c, sw, inner = any_arrow(I, ctx)
    p = I.call(a.move_end_point, (ln.frm, ln.tip))
    ctx.reach("moved")
    shift = D.real(sw) / 2 if sw is not None else D.real(size) * c / 2
    f = ln.facts()
    D.eq_nums(ctx, "the line ends inside the head, on the line", [D.mk(f(D.real(v))) for v in p], [ln.tx + ln.ux * shift, ln.ty + ln.uy * shift])


@unit("arrow heads: defaults")
def u_default(ctx):
    from pyvc.interp import Interp
    I = Interp(ctx)
    ctx.reach("default")
    ctx.prove("an arrow has size 10, 40 degrees, is filled and without an inner point",
              vars(I.call(Arrow, (), {})) == vars(I.call(Arrow, (10, 40, None, None), {})))


class LineLog:
    """a rendering context; a drawn line is kept as its length and any one of its points"""
    _pyvc_stub = True

    def __init__(self, I, ctx):
        self._I, self._ctx, self.log, self.lines = I, ctx, [], []

    def draw_polyline(self, points, **kw):
        self.log.append("line")
        self.lines.append((points, kw))


class EndStub:
    """an arrow by its contract: moves the end, draws itself"""
    _pyvc_stub = True

    def __init__(self, ctx, name):
        import z3
        from props._draw import R
        self._ctx, self.name = ctx, name
        self.fx, self.fy = (z3.Function("%s_%s" % (name, c), R, R, R, R, R) for c in "xy")
        self.drawn = []

    def moved(self, p1, p2):
        from props._draw import real
        a = [real(v) for v in tuple(p1) + tuple(p2)]
        return self.fx(*a), self.fy(*a)

    def move_end_point(self, p1, p2):
        from pyvc.core import mk
        return tuple(mk(v) for v in self.moved(p1, p2))

    def render(self, c, p1, p2, color):
        c.log.append(self)
        self.drawn.append((p1, p2, color))


@unit("lines: the shortened line and its heads")
def u_line(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import measure_states, mk_eq
    from props import _draw as D
    I = Interp(ctx)
    b = D.placed_box(I, ctx)
    p = D.Points(I, ctx, b.layout, least=0)
    kw = dict(color=D.text(ctx, "colour"), stroke_width=ctx.real("width"),
              stroke_dasharray=D.opt(ctx, "dash", lambda: D.text(ctx, "dashes")))
    case = ctx.choose(4, "arrows")
    sa = EndStub(ctx, "start") if case & 1 else None
    ea = EndStub(ctx, "end") if case & 2 else None
    n = to_z3(p.n)
    try:
        I.call(b.line, (p.given,), dict(kw, start_arrow=sa, end_arrow=ea))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("rejected")
        ctx.prove("only lines of fewer than two points are rejected", n < 2)
        return
    ctx.prove("a line has at least two points", n >= 2)
    ctx.prove("the given points are not changed", not p.given.mutated)
    ctx.prove("one item", len(b.children) == 1)
    b.layout.lay_out()
    for at in (z3.IntVal(0), z3.IntVal(1), n - 1, n - 2):
        p.base.at(at)

    def pt(k):
        return [p.x(k), p.y(k)]
    for again in range(1 + ctx.choose(2, "again")):
        I.sites.append("again%d" % again)
        c = LineLog(I, ctx)
        I.call(b.children[0].render, (c,))
        ctx.reach("line %d %d" % (case, again))
        ctx.prove("one line and its heads", [x for x in c.log if x == "line"] == ["line"]
                  and [x for x in c.log if x != "line"] == [x for x in (sa, ea) if x is not None]
                  and c.log[0] == "line")
        got, how = c.lines[0]
        for k, v in kw.items():
            D.same(ctx, "the line is painted as asked", how.get(k), v)
        ctx.prove("no other options", set(how) <= set(kw))
        ctx.prove("a line has all its points", to_z3(I.call(len, (got,))) == n)
        for which in range(3):
            j = (z3.IntVal(0), n - 1, ctx.fresh("any_point", D.Z))[which]
            ctx.assume(z3.And(j >= 0, j < n))
            if which == 2:
                ctx.assume(z3.And(j != 0, j != n - 1))
            q = [D.real(v) for v in I.getitem(got, mk(j))]
            w = pt(j)
            if which == 0 and sa is not None:
                w = list(sa.moved([mk(v) for v in pt(z3.IntVal(1))], [mk(v) for v in w]))
            if which == 1 and ea is not None:
                w = list(ea.moved([mk(v) for v in pt(n - 2)], [mk(v) for v in w]))
            D.eq_nums(ctx, ("the first point is moved by the start arrow only", "the last point is moved by the end arrow only",
                            "the other points are as given")[which], [mk(v) for v in q], [mk(v) for v in w])
        for a, frm, tip in ((sa, z3.IntVal(1), z3.IntVal(0)), (ea, n - 2, n - 1)):
            if a is None:
                continue
            ctx.prove("one head", len(a.drawn) == again + 1)
            f, t, col = a.drawn[again]
            D.eq_nums(ctx, "the head sits at the original end", list(f) + list(t), [mk(v) for v in pt(frm) + pt(tip)])
            D.same(ctx, "the head has the colour of the line", col, kw["color"])
