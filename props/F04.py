"""F04 insertion order."""
from pyvc.api import bounded, unit
from pyvc import decks


@bounded("histories", "random histories of insertions (default, prepend, above, below, via items) into several boxes: "
                      "paint order, and stacking order of prepended boxes")
def histories(B):
    rng = B.rng
    for it in range(B.n(400, 6000)):
        d = decks.deck()
        s = d.new_slide()
        root = s.box(x=0, y=0, width=400, height=400)
        node = {"box": root, "kids": [], "name": "root", "lay": []}
        nodes, log, cnt = [node], [], 0
        for _ in range(rng.randint(2, 10)):
            n = rng.choice(nodes)
            cnt += 1
            name = "c%d" % cnt
            via = n["box"]
            items = [k for k in n["kids"] if k.get("item")]
            if items and rng.random() < 0.4:
                via = rng.choice(items)["box"]
            k = rng.randint(0, 5)
            if k == 0:
                it_ = via.rect(bg_color=name)
                n["kids"].append({"box": it_, "item": True, "name": name, "kids": []})
                log.append((name, "item in", n["name"]))
                continue
            kw, where = {}, len(n["kids"])
            if k == 1:
                kw["prepend"] = True
                where = 0
            elif k in (2, 3) and n["kids"]:
                j = rng.randrange(len(n["kids"]))
                kw["above" if k == 2 else "below"] = n["kids"][j]["box"]
                where = j + (1 if k == 2 else 0)
            b = via.box(width=10, height=3, **kw)
            new = {"box": b, "kids": [], "name": name, "lay": []}
            n["kids"].insert(where, new)
            n["lay"].insert(0 if k == 1 else len(n["lay"]), new)
            log.append((name, k, "in", n["name"], "at", where))
            # a marker item so that the box is visible in the paint order
            m = b.rect(bg_color="m" + name)
            new["kids"].append({"box": m, "item": True, "name": "m" + name, "kids": []})
            nodes.append(new)
        B.case(log)
        want = []

        def dfs(x):
            for c in x["kids"]:
                if c.get("item"):
                    want.append(c["name"])
                else:
                    dfs(c)
        dfs(node)
        got = [decks.style_of(e)["fill"] for e in decks.parse(decks.svgs(d)[0]).iter(decks.SVG + "rect")]
        B.eq(got, want, "paint order", history=log)
        for n in nodes:
            ys = [decks.frect(c["box"])[1] for c in n["lay"]]
            B.check(all(a < b for a, b in zip(ys, ys[1:])), "layout order of the boxes", history=log, ys=ys)


@bounded("rejected", "both siblings given, foreign siblings, grandchildren, the box itself")
def rejected(B):
    d = decks.deck()
    s = d.new_slide()
    a, b = s.box(), s.box()
    c = a.box()
    t = a.text("x")
    for kw in ({"above": a, "below": b}, {"above": a, "below": a}, {"above": c}, {"below": c}, {"above": t},
               {"below": s}, {"above": s}, {"above": object()}):
        B.case(sorted(kw))
        B.raises(lambda: s.box(**kw), "invalid insertion place", args=sorted(kw))
        B.raises(lambda: b.box(above=t), "sibling of another box")
    # every other child is still in place
    a.rect(bg_color="A")
    b.rect(bg_color="B")
    c.rect(bg_color="C")
    got = [decks.style_of(e)["fill"] for e in decks.parse(decks.svgs(d)[0]).iter(decks.SVG + "rect")]
    B.eq(got, ["C", "A", "B"], "paint order after rejected insertions")


@bounded("items", "box, text, shapes, coordinates and styles called on an item act on its box")
def items(B):
    import elsie
    for k in range(6):
        B.case(k)
        d = decks.deck()
        s = d.new_slide()
        b = s.box(x=10, y=20, width=100, height=50, z_level=3)
        it = b.rect(bg_color="I")
        it2 = [lambda: it.rect(bg_color="J"), lambda: it.text("t"), lambda: it.line([(0, 0), (5, 5)]),
               lambda: it.ellipse(bg_color="J"), lambda: it.polygon([(0, 0), (1, 1), (2, 0)], bg_color="J"),
               lambda: it.path([("M", (0, 0)), ("L", (1, 1))])][k]()
        nb = it2.box(x=0, y=0, width="100%", height="100%")
        nb.rect(bg_color="K")
        s.rect(bg_color="S")
        root = decks.parse(decks.svgs(d)[0])
        B.eq(decks.frect(nb), (10, 20, 100, 50), "box created from an item")
        B.eq(it2.p("50%", "50%").eval(), (60, 45), "point taken from an item")
        fills = [decks.style_of(e)["fill"] for e in root.iter(decks.SVG + "rect")]
        B.eq([f for f in fills if f in "IKS"], ["S", "I", "K"], "paint order with item children")


# ------------------------------------------------------------------ proofs
class Kid:
    """one of the children a box has"""
    _pyvc_stub = True

    def __init__(self, k):
        self.k = k

    def _pyvc_is(self, o):
        from pyvc.core import mk
        return mk(self.k == o.k) if isinstance(o, Kid) else False

    _pyvc_eq = _pyvc_is


class Foreign:
    _pyvc_stub = True


class Kids:
    """the list of children: any number of different objects, into which one object is put"""
    _pyvc_stub = True

    def __init__(self, ctx, name="children"):
        from pyvc.core import to_z3
        from pyvc.values import Base, VSeq
        self.ctx = ctx
        self.n = to_z3(ctx.int("n_" + name))
        self.seq = VSeq(Base(self.n, name), Kid)
        self.added = []      # (position, object)

    def whole(self):
        from pyvc.core import Unsupported
        if self.added:
            raise Unsupported("list of children read after an insertion")
        return self.seq

    def insert(self, i, x):
        import z3
        from pyvc.core import Unsupported, to_z3
        if self.added:
            raise Unsupported("second insertion")
        i = to_z3(i)
        i = z3.If(i < 0, z3.If(self.n + i < 0, 0, self.n + i), z3.If(i > self.n, self.n, i))
        self.added.append((i, x))

    def append(self, x):
        from pyvc.core import mk
        self.insert(mk(self.n), x)

    def index(self, x):
        from pyvc.core import mk
        from pyvc.values import mark
        self.whole()
        if not isinstance(x, Kid):
            raise mark(ValueError("not in list"))
        return mk(x.k)

    def _pyvc_len(self):
        from pyvc.core import mk
        return mk(self.n + len(self.added))

    def _pyvc_truth(self):
        return self.ctx.branch(self.n + len(self.added) > 0)

    def _pyvc_iter(self):
        return self.whole()

    def _pyvc_getitem(self, i):
        return self.whole().getitem(i)

    def _pyvc_contains(self, x):
        return isinstance(x, Kid) or any(y is x for _, y in self.added)


def same(a, b):
    from pyvc.core import Unsupported
    if a is not b:
        raise Unsupported("another list of children")


def place(ctx, kids):
    """arguments of an insertion: (keywords, position it asks for; None: rejected)"""
    import z3
    from pyvc.core import to_z3
    kw, pos = {}, kids.n
    if ctx.choose(2, "prepend given"):
        kw["prepend"] = bool(ctx.choose(2, "prepend"))
        if kw["prepend"]:
            pos = z3.IntVal(0)
    k = to_z3(ctx.int("sibling"))
    ctx.assume(z3.And(k >= 0, k < kids.n))

    def sibling():
        return Kid(k) if ctx.choose(2, "foreign") == 0 else Foreign()
    case = ctx.choose(4, "place")
    if case == 1:
        kw["above"] = sibling()
        pos = k + 1 if isinstance(kw["above"], Kid) else None
    if case == 2:
        kw["below"] = sibling()
        pos = k if isinstance(kw["below"], Kid) else None
    if case == 3:
        kw["above"], kw["below"] = sibling(), sibling()
        pos = None
    return kw, pos


def check_put(ctx, what, kids, obj, pos):
    from pyvc.core import to_z3
    ctx.prove(what + ": added once", len(kids.added) == 1 and kids.added[0][1] is obj)
    if len(kids.added) == 1:
        ctx.prove(what + ": at the requested place", to_z3(kids.added[0][0]) == to_z3(pos))


def boxes(I, ctx):
    """a box with any children, and the object whose method is called: the box or an item in it"""
    from props import _box as X
    b = X.bare_box(I, ctx, X.Slide(ctx, 1), X.Show(lambda s: s >= 1, 1), layout=X.layout(ctx))
    from elsie.boxtree.boxitem import SimpleBoxItem
    recv = b
    if ctx.choose(2, "item"):
        recv = I.call(SimpleBoxItem, (b, None))
    b.children = Kids(ctx)
    return b, recv


@unit("new children take the requested place")
def u_add(ctx):
    from pyvc.interp import Interp
    from props import _box as X
    I = Interp(ctx)
    b, _ = boxes(I, ctx)
    kw, pos = place(ctx, b.children)
    from elsie.boxtree.boxitem import SimpleBoxItem
    obj = X.bare_box(I, ctx, b.slide, X.Show(lambda s: s >= 1, 1), layout=X.layout(ctx)) if ctx.choose(2, "what") \
        else I.call(SimpleBoxItem, (b, None))
    kids = b.children
    try:
        I.call(b.add_child, (obj,), kw)
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("rejected")
        ctx.prove("only impossible places are rejected", pos is None)
        same(b.children, kids)
        ctx.prove("a rejected child is not added", not kids.added)
        return
    ctx.reach("added")
    ctx.prove("impossible places are rejected", pos is not None)
    same(b.children, kids)
    if pos is not None:
        check_put(ctx, "a child", kids, obj, pos)


@unit("new boxes: their place among the children and in the layout")
def u_box(ctx):
    from pyvc.interp import Interp
    from props import _box as X
    I = Interp(ctx)
    X.selectors(ctx)
    b, recv = boxes(I, ctx)
    kw, pos = place(ctx, b.children)
    how = ("box", "overlay", "fbox", "sbox")[ctx.choose(4, "method")]
    try:
        r = I.call(getattr(recv, how), (), kw)
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("rejected")
        ctx.prove("only impossible places are rejected", pos is None)
        ctx.prove("a rejected box is not added", not b.children.added)
        return
    ctx.reach("added %s" % how)
    ctx.prove("impossible places are rejected", pos is not None)
    if pos is not None:
        check_put(ctx, "a box", b.children, r, pos)
    ctx.prove("one layout child", len(b.layout.calls) == 1 and r.layout.parent is b.layout)
    ctx.prove("first in the layout exactly if prepended",
              b.layout.calls[0].get("prepend", False) is kw.get("prepend", False))


@unit("new layout children: first if prepended, else last")
def u_layout(ctx):
    import z3
    from pyvc.interp import Interp
    from elsie.boxtree.layout import Layout
    I = Interp(ctx)
    l = I.call(Layout, (None, None, None, None))
    l.children = kids = Kids(ctx)
    kw = {}
    if ctx.choose(2, "prepend given"):
        kw["prepend"] = bool(ctx.choose(2, "prepend"))
    r = I.call(l.add, (), kw)
    ctx.reach("added")
    same(l.children, kids)
    check_put(ctx, "a layout", kids, r, z3.IntVal(0) if kw.get("prepend") else kids.n)


@unit("items are painted after all children, also when created from an item")
def u_item(ctx):
    from pyvc.interp import Interp
    from props import _box as X
    I = Interp(ctx)
    b, recv = boxes(I, ctx)
    how = ctx.choose(5, "method")
    call = (("rect", (), {}), ("ellipse", (), {}), ("line", ([(0, 0), (1, 1)],), {}),
            ("polygon", ([(0, 0), (1, 1), (2, 0)],), {}), ("path", ([("M", (0, 0)), ("L", (1, 1))],), {}))[how]
    from elsie.boxtree.lazy import LazyPoint, LazyValue

    def coordinate(v):
        return LazyValue(lambda: v)
    coordinate.__module__ = "props.F04"
    b.layout.x, b.layout.y = coordinate, coordinate
    b.layout.point = lambda x, y: LazyPoint(coordinate(x), coordinate(y))
    r = I.call(getattr(recv, call[0]), *call[1:])
    ctx.reach("item %d" % how)
    check_put(ctx, "an item", b.children, r, b.children.n)
    ctx.prove("an item belongs to the box", I.call(r._get_box) is b)
