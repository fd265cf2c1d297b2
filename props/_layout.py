"""Proof harness of Layout.set_rect / compute_size_request / min_children_size (L01-L05)."""
import z3
from pyvc.core import SNum, Unsupported, mk, to_z3
from pyvc.interp import Interp, max2
from pyvc.values import Base, SOpt, VSeq, mk_eq

R, I_, B_ = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def need(cls, *names):
    for n in names:
        if n not in vars(cls):
            raise Unsupported("%s.%s does not exist any more" % (cls.__name__, n))


class Tok:
    """Token of a size or position argument; what .parse() makes of the text behind it is decided by L07."""
    _pyvc_stub = True

    def __init__(self, make):
        self.make = make


def If(c, a, b):
    return mk(z3.If(to_z3(c), *[x for x in _pair(a, b)]))


def _pair(a, b):
    from pyvc.core import num_pair
    return num_pair(a, b)


def mx(a, b):
    return max2(a, b)


class Size:
    """A size definition: exactly one of fixed minimum, percentage, fill weight, dynamic value."""

    def __init__(self, ctx, nm, k=None):
        def f(n, s):
            return (z3.Function("%s_%s" % (nm, n), I_, s)(k) if k is not None else z3.Const("%s_%s" % (nm, n), s))
        self.kind = f("kind", I_)          # 0 fixed, 1 ratio, 2 fill, 3 dynamic
        self.min = f("min", R)
        self.ratio = f("ratio", R)
        self.w = f("weight", I_)
        self.dyn = f("dyn", R)
        ctx.assume(z3.And(self.kind >= 0, self.kind <= 3, self.min >= 0, self.ratio >= 0, self.w >= 0,
                          z3.Implies(self.kind != 0, self.min == 0), z3.Implies(self.kind == 2, self.w >= 1)))

    def token(self):
        from elsie.boxtree.value import SizeValue
        from elsie.boxtree.lazy import LazyValue
        dyn = mk(self.dyn)

        def fn():
            return dyn
        fn.__module__ = "props._layout"
        return Tok(lambda: SizeValue(min_size=mk(self.min), ratio=SOpt(self.kind != 1, mk(self.ratio)),
                                     fill=mk(z3.If(self.kind == 2, self.w, 0)),
                                     lazy_value=SOpt(self.kind != 3, LazyValue(fn))))

    def size(self, req, full, unit):
        """spec: the size given to the box; req = requested minimum; unit = None on the cross axis"""
        r = mk(self.ratio)
        fill = full if unit is None else unit * mk(self.w)
        return If(self.kind == 3, mk(self.dyn),
                  If(self.kind == 2, fill, If(z3.And(self.kind == 1, self.ratio != 0), mx(full * r, req), req)))


class Pos:
    """A position definition: 0 none, 1 pixels, 2 percent, 3 align, 4 dynamic."""

    def __init__(self, ctx, nm, k=None):
        def f(n, s):
            return (z3.Function("%s_%s" % (nm, n), I_, s)(k) if k is not None else z3.Const("%s_%s" % (nm, n), s))
        self.kind = f("kind", I_)
        self.val = f("val", R)
        ctx.assume(z3.And(self.kind >= 0, self.kind <= 4))

    @property
    def managed(self):
        return self.kind == 0

    def token(self):
        from elsie.boxtree.value import PosValue
        from elsie.boxtree.lazy import LazyValue
        v = mk(self.val)

        def fn():
            return v
        fn.__module__ = "props._layout"
        return Tok(lambda: PosValue(fix_pos=SOpt(self.kind != 1, v), ratio=SOpt(self.kind != 2, v),
                                    align=SOpt(self.kind != 3, v), lazy_value=SOpt(self.kind != 4, LazyValue(fn))))

    def pos(self, origin, full, own):
        v = mk(self.val)
        return If(self.kind == 4, v, If(self.kind == 2, origin + full * v,
                                        If(self.kind == 3, origin + (full - own) * v, origin + v)))


class Child:
    def __init__(self, ctx, k):
        self.k = k
        self.x, self.y = Pos(ctx, "x", k), Pos(ctx, "y", k)
        self.w, self.h = Size(ctx, "w", k), Size(ctx, "h", k)
        self.pads = [mk(z3.Function("pad%d" % i, I_, R)(k)) for i in range(4)]   # left right top bottom
        self.cw = mk(z3.Function("content_w", I_, R)(k))
        self.ch = mk(z3.Function("content_h", I_, R)(k))

    def req(self, axis):
        """L05: requested minimum on the axis"""
        p = self.pads
        if axis == 0:
            return mx(mk(self.w.min), self.cw + (p[0] + p[1]))
        return mx(mk(self.h.min), self.ch + (p[2] + p[3]))


def setup(ctx):
    """contracts of the value classes (each proved by its own unit)"""
    from elsie.boxtree.layout import Layout
    from elsie.boxtree.value import PosValue, SizeValue
    from pyvc.values import mark
    I = Interp(ctx)
    need(Layout, "set_rect", "min_children_size", "compute_size_request")
    need(SizeValue, "parse", "ensure", "compute")
    need(PosValue, "parse", "compute")

    def parse(cls, obj):
        return obj.make() if isinstance(obj, Tok) else NotImplemented
    parse.__module__ = "props._layout"
    ctx.contracts["boxtree.value.SizeValue.parse"] = parse
    ctx.contracts["boxtree.value.PosValue.parse"] = parse
    return I


def make_child(I, c, **kw):
    from elsie.boxtree.layout import Layout
    ctx = I.ctx
    p = c.pads
    x = None if ctx.branch(c.x.kind == 0) else c.x.token()
    y = None if ctx.branch(c.y.kind == 0) else c.y.token()
    o = I.call(Layout, (), dict(x=x, y=y, width=c.w.token(), height=c.h.token(), p_left=p[0], p_right=p[1],
                                p_top=p[2], p_bottom=p[3], **kw))
    object.__setattr__(o, "_pyvc_child", c)
    return o


def ensure_contract(ctx):
    """SizeValue.ensure (unit `SizeValue.ensure`): a definition whose minimum is the larger one"""
    import copy

    def ensure(self, size):
        o = copy.copy(self)
        o.min_size = mx(self.min_size, size)
        ctx.register(o, "ensured")
        return o
    ctx.contracts["boxtree.value.SizeValue.ensure"] = ensure


def compute_contracts(ctx):
    """SizeValue.compute and PosValue.compute (units of the same name), without case splits"""
    def opt(v):
        if isinstance(v, SOpt):
            return v.none, v.val
        return z3.BoolVal(v is None), (v if v is not None else 0)

    def size_compute(self, full, unit):
        ln, lv = opt(self.lazy_value)
        rn, r = opt(self.ratio)
        ev = lv.fn() if hasattr(lv, "fn") else 0
        fill = full if unit is None else unit * self.fill
        return If(z3.Not(ln), ev, If(to_z3(self.fill) != 0, fill,
                  If(z3.And(z3.Not(rn), to_z3(r) != 0), mx(full * r, self.min_size), self.min_size)))

    def pos_compute(self, origin, full, own):
        ln, lv = opt(self.lazy_value)
        rn, r = opt(self.ratio)
        an, a = opt(self.align)
        fn, f = opt(self.fix_pos)
        ev = lv.fn() if hasattr(lv, "fn") else 0
        ctx.prove("a position is defined", z3.Not(z3.And(ln, rn, an, fn)))
        return If(z3.Not(ln), ev, If(z3.Not(rn), origin + full * r, If(z3.Not(an), origin + (full - own) * a,
                                                                       origin + f)))
    ctx.contracts["boxtree.value.SizeValue.compute"] = size_compute
    ctx.contracts["boxtree.value.PosValue.compute"] = pos_compute


class Rec:
    _pyvc_stub = True

    def __init__(self):
        self.count = 0


# size definitions of the parent: they decide nothing once its rectangle is given
OWN = [(None, None), ("100%", "100%"), ("fill", 20)]


def set_rect_unit(ctx, props):
    from elsie.boxtree.layout import Layout
    from elsie.utils.geom import Rect
    I = setup(ctx)
    ensure_contract(ctx)
    compute_contracts(ctx)
    horiz = bool(ctx.choose(2, "horizontal"))
    ax = 0 if horiz else 1
    pads = [ctx.real("p%d" % i) for i in range(4)]
    w, h = OWN[ctx.choose(2, "own size")]
    lay = I.call(Layout, (), dict(x=None, y=None, width=w, height=h, p_left=pads[0], p_right=pads[1],
                                  p_top=pads[2], p_bottom=pads[3], horizontal=horiz))
    n = ctx.int("n")
    kids = Base(n, "kids")

    spec = {}

    def child(k):
        key = z3.simplify(k).sexpr()
        if key not in spec:
            spec[key] = Child(ctx, z3.simplify(k))
        return spec[key]

    def elem(k):
        o = make_child(I, child(k))
        object.__setattr__(o, "_pyvc_elem", True)
        return o
    lay.children = VSeq(kids, elem)
    X, Y, W, H = [ctx.real(s) for s in "XYWH"]
    ix, iy = X + pads[0], Y + pads[2]
    iw, ih = W - pads[0] - pads[1], H - pads[2] - pads[3]
    size, start = (iw, ix) if horiz else (ih, iy)

    def man(c):
        return (c.x if horiz else c.y).managed

    def msz(c):
        return c.w if horiz else c.h

    def reserved(k):
        c = child(k)
        s = msz(c)
        rq = c.req(ax)
        return If(z3.And(man(c), s.kind != 2),
                  If(z3.And(s.kind == 1, s.ratio != 0), mx(rq, mk(s.ratio) * size), rq), mk(z3.RealVal(0)))
    kids.fold("weights", I_, z3.IntVal(0), lambda k, G: z3.If(
        z3.And(man(child(k)), msz(child(k)).kind == 2), to_z3(G("weights")) + msz(child(k)).w, to_z3(G("weights"))))
    kids.fold("used", R, z3.RealVal(0), lambda k, G: G("used") + reserved(k))
    wn, un = kids.G("weights", kids.n), kids.G("used", kids.n)
    unit = ctx.real("unit")
    ctx.assume(z3.If(to_z3(wn) != 0, mk_eq(unit, mk(to_z3(size - un) / z3.ToReal(to_z3(wn)))), mk_eq(unit, 0)))
    first = start + If(to_z3(wn) != 0, 0, (size - un) / 2)

    def given(c, axis):
        s = c.w if axis == 0 else c.h
        return s.size(c.req(axis), iw if axis == 0 else ih, unit if axis == ax else None)
    kids.fold("stacked", R, z3.RealVal(0), lambda k, G: If(man(child(k)), G("stacked") + given(child(k), ax),
                                                          G("stacked")))
    rec = Rec()
    ctx.serial(rec)

    def content(self):
        c = getattr(self, "_pyvc_child", None)
        if c is None:
            return NotImplemented
        return (c.cw, c.ch)

    def set_rect(self, rect):
        c = getattr(self, "_pyvc_child", None)
        if c is None:
            return NotImplemented
        ctx.reach("a child is placed")
        ctx.prove("children are placed once each, in order", rec.count == mk(c.k))
        ctx.note_write(rec, "count")
        rec.count = rec.count + 1
        gx, gy, gw, gh = rect.x, rect.y, rect.width, rect.height
        got_pos = (gx, gy)
        got_size = (gw, gh)
        if "L02" in props:
            ctx.prove("width of a child", mk_eq(gw, given(c, 0)))
            ctx.prove("height of a child", mk_eq(gh, given(c, 1)))
        for a in (0, 1):
            p = c.x if a == 0 else c.y
            org, full = ((ix, iw), (iy, ih))[a]
            if a == ax:
                if "L01" in props:
                    ctx.prove("stacked position of a child", z3.Implies(
                        p.kind == 0, mk_eq(got_pos[a], first + kids.G("stacked", c.k))))
            elif "L03" in props:
                ctx.prove("centred on the cross axis", z3.Implies(
                    p.kind == 0, mk_eq(got_pos[a], org + (full - got_size[a]) / 2)))
            if "L03" in props:
                ctx.prove("explicit position of a child", z3.Implies(
                    p.kind != 0, mk_eq(got_pos[a], p.pos(org, full, got_size[a]))))
        return None
    ctx.contracts["boxtree.layout.Layout.min_children_size"] = content
    ctx.contracts["boxtree.layout.Layout.set_rect"] = set_rect
    rect = Rect(X, Y, W, H)
    if "R01" in props:
        # an earlier layout
        lay.rect = Rect(*[ctx.real("old" + a) for a in "XYWH"])
        before = dict(vars(lay))
    I.call(lay.set_rect, (rect,))
    ctx.reach("set_rect returns")
    if "R01" in props:
        after = dict(vars(lay))
        old, new = before.pop("rect"), after.pop("rect", None)
        ctx.prove("a layout keeps everything but its rectangle", before.keys() <= after.keys() and all(
            after[k] is before[k] or k.startswith("_pyvc") for k in before))
        ctx.prove("the children stay", not getattr(lay.children, "mutated", 0))
        ctx.prove("the given rectangle stays", rect is not new and z3.And(*[
            mk_eq(a, b) for a, b in zip((rect.x, rect.y, rect.width, rect.height), (X, Y, W, H))]))
    ctx.prove("every child is placed", rec.count == mk(kids.n))
    ctx.prove("the content rectangle", z3.And(mk_eq(lay.rect.x, ix), mk_eq(lay.rect.y, iy),
                                              mk_eq(lay.rect.width, iw), mk_eq(lay.rect.height, ih)))


# ------------------------------------------------------------------ value classes
def same_def(ctx, name, a, b):
    """the same ratio, fill and dynamic value"""
    for f in ("ratio", "fill", "lazy_value"):
        x, y = getattr(a, f), getattr(b, f)
        if isinstance(x, SOpt) or isinstance(y, SOpt) or not isinstance(x, SNum):
            ctx.prove(name, x is y)
        else:
            ctx.prove(name, mk_eq(x, y))


def values_unit(ctx, what):
    from elsie.boxtree.value import PosValue, SizeValue
    I = setup(ctx)
    if what == "pos":
        p = Pos(ctx, "p")
        v = PosValue.parse.__func__
        obj = ctx.contracts["boxtree.value.PosValue.parse"](PosValue, p.token())
        ctx.assume(p.kind != 0)
        o, f, s = [ctx.real(x) for x in "ofs"]
        r = I.call(obj.compute, (o, f, s))
        ctx.reach("position computed")
        ctx.prove("PosValue.compute", mk_eq(r, p.pos(o, f, s)))
        return
    sz = Size(ctx, "s")
    obj = sz.token().make()
    ctx.register(obj, "sizevalue")
    req = ctx.real("req")
    if what == "ensure":
        old = mk(sz.min)
        r = I.call(obj.ensure, (req,))
        ctx.reach("ensured")
        ctx.prove("SizeValue.ensure: minimum", mk_eq(r.min_size, mx(mk(sz.min), req)))
        same_def(ctx, "SizeValue.ensure: definition", r, obj)
        ctx.prove("SizeValue.ensure: frame", mk_eq(obj.min_size, old))
        return
    full, unit = ctx.real("full"), ctx.real("unit")
    obj.min_size = req     # any minimum
    main = ctx.choose(2, "axis")
    r = I.call(obj.compute, (full, unit if main else None))
    ctx.reach("size computed")
    ctx.prove("SizeValue.compute", mk_eq(r, sz.size(req, full, unit if main else None)))


# ------------------------------------------------------------------ requests (L04, L05)
def padded(ctx, I, **kw):
    from elsie.boxtree.layout import Layout
    pads = [ctx.real("p%d" % i) for i in range(4)]
    lay = I.call(Layout, (), dict(x=None, y=None, p_left=pads[0], p_right=pads[1], p_top=pads[2], p_bottom=pads[3],
                                  **kw))
    return lay, pads


def request_unit(ctx, what):
    """compute_size_request over the contract of min_children_size; ensure_width / ensure_height"""
    I = setup(ctx)
    ensure_contract(ctx)
    w, h = Size(ctx, "w"), Size(ctx, "h")
    lay, p = padded(ctx, I, width=w.token(), height=h.token())
    cw, ch = ctx.real("cw"), ctx.real("ch")
    ctx.contracts["boxtree.layout.Layout.min_children_size"] = lambda self: (cw, ch)
    ctx.contracts["boxtree.layout.Layout.min_children_size"].__module__ = "props._layout"
    old = (lay._width, lay._height)
    if what == "request":
        rw, rh = I.call(lay.compute_size_request, ())
        ctx.reach("request computed")
        for nm, r, s, c, a, b in (("width", rw, w, cw, 0, 1), ("height", rh, h, ch, 2, 3)):
            ctx.prove("requested " + nm, mk_eq(r.min_size, mx(mk(s.min), c + (p[a] + p[b]))))
            same_def(ctx, "requested %s keeps its definition" % nm, r, old[0 if nm == "width" else 1])
        ctx.prove("a request changes nothing", lay._width is old[0] and lay._height is old[1])
        return
    v = ctx.real("v")
    getattr(lay, "ensure_" + what)
    I.call(getattr(lay, "ensure_" + what), (v,))
    ctx.reach("ensured")
    if what == "width":
        ctx.prove("ensure_width", mk_eq(lay._width.min_size, mx(mk(w.min), v + (p[0] + p[1]))))
        same_def(ctx, "ensure_width keeps the definition", lay._width, old[0])
        ctx.prove("ensure_width leaves the height", lay._height is old[1])
    else:
        ctx.prove("ensure_height", mk_eq(lay._height.min_size, mx(mk(h.min), v + (p[2] + p[3]))))
        same_def(ctx, "ensure_height keeps the definition", lay._height, old[1])
        ctx.prove("ensure_height leaves the width", lay._width is old[0])


def children_unit(ctx):
    """min_children_size over the contract of the children's compute_size_request"""
    import copy
    I = setup(ctx)
    horiz = bool(ctx.choose(2, "horizontal"))
    w, h = OWN[ctx.choose(len(OWN), "own size")]
    lay, p = padded(ctx, I, width=w, height=h, horizontal=horiz)
    n = ctx.int("n")
    kids = Base(n, "kids")
    spec = {}

    def child(k):
        key = z3.simplify(k).sexpr()
        if key not in spec:
            spec[key] = Child(ctx, z3.simplify(k))
        return spec[key]

    def rq(k, a):
        return mk(z3.Function("request%d" % a, I_, R)(k))

    def elem(k):
        o = make_child(I, child(k))
        object.__setattr__(o, "_pyvc_elem", True)
        return o
    lay.children = VSeq(kids, elem)

    def request(self):
        c = getattr(self, "_pyvc_child", None)
        if c is None:
            return NotImplemented
        out = []
        for a, s in ((0, self._width), (1, self._height)):
            o = copy.copy(s)
            o.min_size = rq(c.k, a)
            ctx.register(o, "request")
            out.append(o)
        return tuple(out)
    ctx.contracts["boxtree.layout.Layout.compute_size_request"] = request
    ax = 0 if horiz else 1

    def man(k):
        c = child(k)
        return (c.x if horiz else c.y).kind == 0
    kids.fold("any", B_, z3.BoolVal(False), lambda k, G: z3.Or(to_z3(G("any")), man(k)))
    kids.fold("sum", R, z3.RealVal(0), lambda k, G: If(man(k), G("sum") + rq(k, ax), G("sum")))
    kids.fold("max", R, z3.RealVal(0), lambda k, G: If(man(k), If(G("any"), mx(G("max"), rq(k, 1 - ax)),
                                                                  rq(k, 1 - ax)), G("max")))

    def lemma(seq, w):
        if w is None:
            kids.induct("no stacked child", lambda k: z3.And(mk_eq(kids.G("sum", k), 0), mk_eq(kids.G("max", k), 0),
                                                             z3.Not(to_z3(kids.G("any", k)))))
        else:
            kids.induct("a stacked child", lambda k: z3.Implies(k > w, to_z3(kids.G("any", k))))
    ctx.on_witness.append(lemma)
    r = I.call(lay.min_children_size, ())
    ctx.reach("requirement computed")
    ctx.prove("sum of the requests along the main axis", mk_eq(r[ax], kids.G("sum", kids.n)))
    ctx.prove("maximum of the requests across it", mk_eq(r[1 - ax], kids.G("max", kids.n)))


def padding_unit(ctx):
    """Layout.add: precedence of the padding arguments"""
    from elsie.boxtree.layout import Layout
    I = setup(ctx)
    need(Layout, "add")
    lay, _ = padded(ctx, I, width=None, height=None)
    names = ["p_left", "p_right", "p_top", "p_bottom", "p_x", "p_y", "padding"]
    args, val = {}, {}
    for nm in names:
        none, v = ctx.bool(nm + "_none").e, ctx.real(nm)
        val[nm] = (none, v)
        args[nm] = SOpt(none, v)
    horiz = ctx.bool("horizontal")
    r = I.call(lay.add, (), dict(args, horizontal=horiz))
    ctx.reach("layout added")

    def given(nm, other):
        none, v = val[nm]
        return If(z3.Not(none), v, other)
    for side, axis in (("p_left", "p_x"), ("p_right", "p_x"), ("p_top", "p_y"), ("p_bottom", "p_y")):
        got = getattr(r, side)
        if isinstance(got, SOpt):
            got = got.get()
        ctx.prove("padding " + side, got is not None and mk_eq(got, given(side, given(axis, given("padding", mk(z3.RealVal(0)))))))
    ctx.prove("orientation", to_z3(r.horizontal) == to_z3(horiz))


def shortcut_unit(ctx, names):
    """overlay, fbox, sbox: boxes with the sizes and positions they stand for, unless given"""
    from elsie.boxtree.boxmixin import BoxMixin
    from elsie.boxtree.value import PosValue, SizeValue
    name = names[ctx.choose(len(names), "shortcut")]
    horizontal = bool(ctx.choose(2, "horizontal"))
    want = {"overlay": {"x": 0, "y": 0, "width": "100%", "height": "100%"},
            "fbox": {"width": "fill", "height": "fill"},
            "sbox": {"height": "fill"} if horizontal else {"width": "fill"}}[name]
    made = []

    class Layout_:
        _pyvc_stub = True

    class Box_(BoxMixin):
        _pyvc_stub = True
        layout = Layout_()
        layout.horizontal = horizontal

        def _get_box(self):
            return self

        def box(self, **kwargs):
            made.append(kwargs)
            return "the box"
    given = {}
    for a in ("x", "y", "width", "height", "name"):
        if ctx.choose(2, a):
            given[a] = Tok(None)
    r = Interp(ctx).call(getattr(BoxMixin, name), (Box_(),), dict(given))
    ctx.reach(name)
    ctx.prove("one box is made and returned", len(made) == 1 and r == "the box")
    kw = made[0]

    def same(a, v):
        if a in given:
            return kw.get(a) is given[a]
        if v is None:
            return a not in kw
        try:
            return vars((PosValue if a in ("x", "y") else SizeValue).parse(kw[a])) == vars(
                (PosValue if a in ("x", "y") else SizeValue).parse(v))
        except Exception:
            return False
    for a in set(kw) | set(given) | set(want):
        ctx.prove("what is given stays, the rest is as the shortcut says", same(a, want.get(a)))
