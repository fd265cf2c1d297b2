"""L06 dynamic coordinates."""
from pyvc.api import bounded, unit
from pyvc import decks, reflayout as R

VALS = [0, 3, -2.5, "0", "17", "0%", "50%", "100%", "130%"]


@bounded("values", "all coordinate notations on random decks, added offsets, repeated evaluation, re-layout after "
                   "changes")
def values(B):
    for it in range(B.n(60, 800)):
        tree = R.rnd_tree(B.rng, 3, 3, {"pads": 0.3})
        B.case(R.strip(tree))
        d = decks.deck(width=400, height=300)
        root = d.new_slide()
        boxes = {}
        R.build(root, tree, boxes)
        early = {}
        for path, b in boxes.items():
            early[path] = [(v, b.x(v), b.y(v), b.p(v, "30%"), b.mid_point(), b.x(v).add(4.5),
                            b.p(v, v).add(1.5, -2), b.p(v, 1).add(3, 4).add(-1, 2)) for v in VALS]
        for rnd in range(2):
            R.layout(tree, tree, (0, 0, 400, 300))
            decks.units(d)
            for path, n in R.walk(tree):
                if path not in early:
                    continue
                x, y, w, h = n["_rect"]
                b = boxes[path]

                def ref(v, o, e):
                    if isinstance(v, str) and v.endswith("%"):
                        return o + e * int(v[:-1]) / 100
                    return o + float(v)
                for rep in range(2):
                    for (v, lx, ly, p, mid, ax, pa, paa) in early[path]:
                        rx, ry = ref(v, x, w), ref(v, y, h)
                        B.eq(lx.eval(), rx, "x coordinate", v=v, path=path)
                        B.eq(ly.eval(), ry, "y coordinate", v=v, path=path)
                        B.eq(p.eval(), (rx, ref("30%", y, h)), "point", v=v, path=path)
                        B.eq(mid.eval(), (x + w / 2, y + h / 2), "mid point", path=path)
                        B.eq(ax.eval(), rx + 4.5, "added offset", v=v, path=path)
                        B.eq(pa.eval(), (rx + 1.5, ry - 2), "added point offset", v=v, path=path)
                        B.eq(paa.eval(), (rx + 2, ref(1, y, h) + 6), "twice added point offset", v=v, path=path)
                        B.eq(b.x(v).eval(), rx, "x coordinate created after layout", v=v, path=path)
            # change the deck; the same dynamic values must follow the new layout
            if rnd == 0:
                root.box(width=31, height=23)
                tree["kids"].append({"kids": [], "height": 23, "width": 31})


@bounded("polygon", "points of lines/polygons given as numbers, percentages and dynamic points, resolved at drawing")
def polygon(B):
    for it in range(B.n(60, 600)):
        w, h = B.rng.randint(20, 100), B.rng.randint(20, 100)
        x, y = B.rng.randint(0, 100), B.rng.randint(0, 100)
        d = decks.deck(width=400, height=300)
        b = d.new_slide().box(x=x, y=y, width=w, height=h)
        o = b.box(x="50%", y=2, width=10, height=12)
        pts, want = [], []
        for _ in range(3):
            k = B.rng.randint(0, 2)
            v = B.rng.choice(["50%", 3, "7", "100%"])
            f = {"50%": lambda s: s / 2, 3: lambda s: 3, "7": lambda s: 7, "100%": lambda s: s}[v]
            if k == 0:
                pts.append((v, 5))
                want.append((x + f(w), y + 5))
            elif k == 1:
                pts.append([b.x(v).add(2), 1][0] and b.p(v, v).add(1, 2))
                want.append((x + f(w) + 1, y + f(h) + 2))
            else:
                pts.append(o.p(v, "50%"))
                want.append((x + w / 2 + f(10), y + 2 + 6))
        B.case((x, y, w, h, [v for v in want]))
        b.line(pts)
        b.polygon(pts, bg_color="red")
        for _ in range(2):
            s = decks.parse(decks.svgs(d)[0])
            for t in ("polyline", "polygon"):
                got = decks.nums(s.find(".//s:" + t, decks.NS).get("points"))
                B.eq(got, [c for p in want for c in p], "points of a " + t)


# ------------------------------------------------------------------ proofs
def world(ctx):
    """a value that depends on the time of evaluation"""
    from elsie.boxtree.lazy import LazyValue
    cell = [ctx.real("v"), ctx.real("v")]
    now = [0]

    def fn():
        return cell[now[0]]
    fn.__module__ = "props.L06"
    lv = LazyValue(fn)
    ctx.register(lv, "lazy")
    return lv, cell, now


@unit("LazyValue: eval, map, add")
def u_lazy(ctx):
    from pyvc.interp import Interp
    from pyvc.values import mk_eq
    I = Interp(ctx)
    lv, cell, now = world(ctx)
    a = ctx.real("a")
    r = I.call(lv.add, (a,))

    def twice(v):
        return v + v
    twice.__module__ = "props.L06"
    m = I.call(lv.map, (twice,))
    for t in (0, 1, 0):
        now[0] = t
        for rep in range(2):
            ctx.prove("added offset", mk_eq(I.call(r.eval), cell[t] + a))
            ctx.prove("mapped value", mk_eq(I.call(m.eval), cell[t] + cell[t]))
            ctx.prove("the base is unchanged", mk_eq(I.call(lv.eval), cell[t]))
    ctx.reach("evaluated")


@unit("LazyPoint: eval, add")
def u_point(ctx):
    from pyvc.interp import Interp
    from pyvc.values import mk_eq
    from elsie.boxtree.lazy import LazyPoint
    I = Interp(ctx)
    (lx, cx, nx), (ly, cy, ny) = world(ctx), world(ctx)
    p = I.call(LazyPoint, (lx, ly))
    a, b = ctx.real("a"), ctx.real("b")
    q = I.call(p.add, (a, b))
    for t in (0, 1, 0):
        nx[0] = ny[0] = t
        for pt, da, db in ((q, a, b), (p, 0, 0), (q, a, b)):
            r = I.call(pt.eval)
            ctx.prove("x of a point", mk_eq(r[0], cx[t] + da))
            ctx.prove("y of a point", mk_eq(r[1], cy[t] + db))
    ctx.reach("evaluated")


def rects(ctx):
    from elsie.utils.geom import Rect
    out = []
    for i in range(2):
        r = Rect(*[ctx.real("%s%d" % (c, i)) for c in "xywh"])
        ctx.register(r, "rect")
        out.append(r)
    return out


def any_layout(ctx, I):
    from elsie.boxtree.layout import Layout
    return I.call(Layout, (), dict(x=None, y=None, width=None, height=None, horizontal=ctx.bool("horizontal")))


@unit("Layout.x / y / point, BoxMixin.x / y / p / mid_point")
def u_coord(ctx):
    from pyvc.values import mk_eq
    from props import _layout as L
    from elsie.boxtree.box import Box
    I = L.setup(ctx)
    L.compute_contracts(ctx)
    lay = any_layout(ctx, I)
    box = Box.__new__(Box)
    box.layout = lay
    ctx.register(box, "box")
    px, py = L.Pos(ctx, "px"), L.Pos(ctx, "py")
    ctx.assume(px.kind >= 1)
    ctx.assume(py.kind >= 1)
    ctx.assume(px.kind <= 2)
    ctx.assume(py.kind <= 2)
    r0, r1 = rects(ctx)
    if ctx.choose(2, "created after a layout"):
        object.__setattr__(lay, "rect", r1)
    o = box if ctx.choose(2, "level") else lay
    x, y = I.call(o.x, (px.token(),)), I.call(o.y, (py.token(),))
    p = I.call(box.p if o is box else lay.point, (px.token(), py.token()))
    mid = I.call(box.mid_point, ())
    for r in (r0, r1, r0):
        object.__setattr__(lay, "rect", r)
        for rep in range(2):
            wx, wy = px.pos(r.x, r.width, 0), py.pos(r.y, r.height, 0)
            ctx.prove("x coordinate", mk_eq(I.call(x.eval), wx))
            ctx.prove("y coordinate", mk_eq(I.call(y.eval), wy))
            q = I.call(p.eval)
            ctx.prove("point", mk_eq(q[0], wx))
            ctx.prove("point", mk_eq(q[1], wy))
            m = I.call(mid.eval)
            ctx.prove("mid point", mk_eq(m[0], r.x + r.width / 2))
            ctx.prove("mid point", mk_eq(m[1], r.y + r.height / 2))
    ctx.reach("evaluated")


@unit("unpack_point, eval_value, eval_pair")
def u_unpack(ctx):
    import z3
    from pyvc.interp import Interp
    from pyvc.values import Base, VSeq, mk_eq
    from elsie.boxtree.box import Box
    from elsie.boxtree import lazy
    I = Interp(ctx)
    asked = []

    class StubBox:
        _pyvc_stub = True

        def x(self, v):
            asked.append(("x", v))
            return asked[-1]

        def y(self, v):
            asked.append(("y", v))
            return asked[-1]
    kind = ctx.choose(4, "kind")
    if kind == 0:
        (lx, cx, nx), (ly, cy, ny) = world(ctx), world(ctx)
        p = I.call(lazy.LazyPoint, (lx, ly))
        r = I.call(lazy.unpack_point, (p, StubBox()))
        ctx.prove("a dynamic point is taken as it is", r[0] is lx and r[1] is ly)
        e = I.call(lazy.eval_pair, (r,))
        ctx.prove("a dynamic point evaluates", mk_eq(e[0], cx[0]))
        ctx.prove("a dynamic point evaluates", mk_eq(e[1], cy[0]))
    elif kind == 1:
        v = ctx.real("v")
        ctx.prove("a number evaluates to itself", mk_eq(I.call(lazy.eval_value, (v,)), v))
    else:
        b = Base(ctx.int("n"), "coords")
        f = z3.Function("coord", z3.IntSort(), z3.RealSort())
        from pyvc.core import mk
        obj = VSeq(b, lambda k: mk(f(k)), typ=(tuple, list)[kind - 2])
        try:
            r = I.call(lazy.unpack_point, (obj, StubBox()))
        except Exception as e:
            if not getattr(e, "_pyvc_prog", False):
                raise
            ctx.prove("a pair is accepted", b.n != 2)
            return
        ctx.reach("pair")
        ctx.prove("only pairs are accepted", b.n == 2)
        ctx.prove("a pair is relative to the box", r[0][0] == "x" and r[1][0] == "y")
        ctx.prove("a pair is relative to the box", mk_eq(r[0][1], mk(f(0))))
        ctx.prove("a pair is relative to the box", mk_eq(r[1][1], mk(f(1))))


@unit("BoxMixin.polygon: points resolved when drawing")
def u_polygon(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import Base, VSeq, mk_eq
    from elsie.boxtree.box import Box
    from elsie.boxtree.lazy import LazyValue
    I = Interp(ctx)
    box = Box.__new__(Box)
    from pyvc.values import VList
    box.children = VList()
    box.z_level = ctx.int("z")
    ctx.register(box, "box")
    n = ctx.int("n")
    pts = Base(n, "pts")
    now = [0]

    class Pt:
        _pyvc_stub = True

        def __init__(self, k):
            self.k = k

    def val(c, t, k):
        return mk(z3.Function("%s_%d" % (c, t), z3.IntSort(), z3.RealSort())(k))

    def unpack(obj, b):
        ctx.prove("points are relative to the box", b is box)

        def lv(c):
            def fn():
                return val(c, now[0], obj.k)
            fn.__module__ = "props.L06"
            return LazyValue(fn)
        return lv("x"), lv("y")
    unpack.__module__ = "props.L06"
    ctx.contracts["boxtree.lazy.unpack_point"] = unpack
    calls = []

    class Ctx:
        _pyvc_stub = True

        def draw_polygon(self, points, **kw):
            calls.append(kw)
            ctx.prove("number of points", to_z3(I.models[len](I, points)) == to_z3(n))
            k = ctx.int("k")
            ctx.assume(k >= 0)
            ctx.assume(k < n)
            p = points.getitem(k)
            ctx.prove("x of a drawn point", mk_eq(p[0], val("x", now[0], k.e)))
            ctx.prove("y of a drawn point", mk_eq(p[1], val("y", now[0], k.e)))
    item = I.call(box.polygon, (VSeq(pts, Pt),), dict(color="red", bg_color="blue", rotation=ctx.real("rot")))
    ctx.prove("one item is added", list(box.children) == [item])
    for t in (0, 1):
        now[0] = t
        I.call(item.render, (Ctx(),))
    ctx.prove("drawn once each time", len(calls) == 2)
    ctx.prove("attributes are passed on", all(c["color"] == "red" and c["bg_color"] == "blue" for c in calls))
    ctx.reach("drawn")
