"""F03 visibility and z order."""
from pyvc.api import bounded, unit
from pyvc import decks


def gen(rng, root):
    """Random tree; returns reference list of (id, z, [conditions of all enclosing boxes]) in depth-first order."""
    spec = []
    cnt = [0]

    def mk(box, conds, z, depth):
        out = []
        for _ in range(rng.randint(1, 4)):
            k = rng.randint(0, 2)
            if k == 0 or depth == 0:
                cnt[0] += 1
                name = "c%d" % cnt[0]
                box.rect(bg_color=name)
                out.append((name, z, conds))
            else:
                sel = rng.choice([None, None, "1", "2", "3+", "1-2", "2,4", "2+"])
                cond = {None: lambda s: True, "1": lambda s: s == 1, "2": lambda s: s == 2, "3+": lambda s: s >= 3,
                        "1-2": lambda s: s <= 2, "2,4": lambda s: s in (2, 4), "2+": lambda s: s >= 2}[sel]
                zz = rng.choice([None, None, None, 0, 1, -1, 2, -5, 1])
                kw = {} if zz is None else {"z_level": zz}
                b = box.box(show=sel, **kw)
                out += mk(b, conds + [cond], z if zz is None else zz, depth - 1)
        return out
    return mk(root, [], 0, 3)


@bounded("paint", "random trees (depth 3) with selectors and z levels; the painted items and their order on every page")
def paint(B):
    for it in range(B.n(400, 6000)):
        d = decks.deck()
        root = d.new_slide()
        ref = gen(B.rng, root)
        pages = decks.svgs(d)
        B.case([(n, z, [bool(c(s)) for c in cs for s in (1, 2, 3, 4)]) for n, z, cs in ref])
        for i, p in enumerate(pages):
            got = [decks.style_of(e)["fill"] for e in decks.parse(p).iter(decks.SVG + "rect")]
            vis = [(n, z) for n, z, cs in ref if all(c(i + 1) for c in cs)]
            want = [n for n, z in sorted(vis, key=lambda v: v[1])]
            B.eq(got, want, "items painted on page %d" % (i + 1), tree=[(n, z, len(cs)) for n, z, cs in ref])


@bounded("cairo", "the same on the Cairo backend (drawing calls recorded in order)")
def cairo(B):
    import elsie.render.backends.cairo.backend as cb
    log = []

    class Ctx(cb.CairoRenderingContext):
        def draw_rect(self, *a, **k):
            log.append(k.get("bg_color"))
    cb.CairoRenderingContext = Ctx
    for it in range(B.n(100, 1000)):
        d = decks.deck(cairo=True)
        root = d.new_slide()
        ref = gen(B.rng, root)
        B.case([(n, z, [bool(c(s)) for c in cs for s in (1, 2, 3, 4)]) for n, z, cs in ref])
        log.clear()
        n = len(decks.units(d))
        want = []
        for s in range(1, n + 1):
            vis = [(m, z) for m, z, cs in ref if all(c(s) for c in cs)]
            want += [m for m, z in sorted(vis, key=lambda v: v[1])]
        B.eq(log, want, "items painted", tree=[(m, z, len(cs)) for m, z, cs in ref])


@bounded("kinds", "texts, images, lines in hidden and shown boxes with z levels")
def kinds(B):
    for z1 in (None, -1, 0, 1):
        for z2 in (None, -1, 0, 1):
            B.case((z1, z2))
            d = decks.deck()
            root = d.new_slide()
            a = root.box(show="2+", z_level=z1)
            t = a.text("A")
            a.line([(0, 0), (1, 1)])
            b = a.box(show="1-2", z_level=z2)
            b.text("B")
            t.rect(bg_color="q")
            root.text("R")
            pages = decks.svgs(d)
            B.eq(len(pages), 2, "pages")

            def tags(p):
                out = []
                for e in decks.parse(p):
                    k = e.tag.split("}")[1]
                    out.append("".join(e.itertext()) if k == "text" else k)
                return out
            B.eq(tags(pages[0]), ["R"], "page 1")
            za = z1 if z1 is not None else 0
            zb = z2 if z2 is not None else za
            ref = [("A", za), ("polyline", za), ("B", zb), ("rect", za), ("R", 0)]
            B.eq(tags(pages[1]), [n for n, z in sorted(ref, key=lambda v: v[1])], "page 2", z1=z1, z2=z2)


# ------------------------------------------------------------------ proofs
def painters_unit(ctx, debug):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.values import Base, VSeq, measure_states, mk_eq, seg_list
    from pyvc.interp import Interp
    from props import _box as X
    from elsie.boxtree.box import Box
    from elsie.boxtree.boxitem import BoxItem, SimpleBoxItem
    item = z3.Function("item", X.Z, X.ELEM)
    dbg = z3.Const("debug_rectangle", X.ELEM)
    X.trace(ctx, lambda x: item(x._pyvc_child) if hasattr(x, "_pyvc_child") else dbg)
    I = Interp(ctx)
    n, step, depth = ctx.int("n"), ctx.int("step"), ctx.int("depth")
    ctx.assume(step >= 1)
    base = Base(n, "children")
    isbox = z3.Function("is_box", X.Z, X.B_)
    run = z3.Function("paint_child", X.Z, X.M, X.M)     # what the child paints in this fragment (nothing: identity)
    rc = X.Context(step, debug)
    vis = z3.Function("visible", X.Z, X.B_)
    show = X.Show(lambda s: vis(s), ctx.int("top"))
    slide = X.Slide(ctx, ctx.int("max_step"))
    b = X.bare_box(I, ctx, slide, show, z_level=ctx.int("z"))

    def elem(k):
        if ctx.branch(isbox(k)):
            o = X.bare_box(I, ctx, slide, None)
        else:
            o = I.call(SimpleBoxItem, (b, None))
        object.__setattr__(o, "_pyvc_child", k)
        return o
    b.children = VSeq(base, elem)

    def get_painters(self, c, d):
        if not hasattr(self, "_pyvc_child"):
            return NotImplemented
        ctx.prove("a child paints in the same page", c is rc)
        k = self._pyvc_child
        return seg_list({"trace": lambda s: run(k, to_z3(s))})
    get_painters.__module__ = "props.F03"
    ctx.contracts["boxtree.box.Box.get_painters"] = get_painters
    base.fold("painted", X.M, X.START,
              lambda k, G: z3.If(isbox(k), run(k, to_z3(G("painted"))), X.EXT(to_z3(G("painted")), item(k))))
    r = I.call(b.get_painters, (rc, depth))
    got = to_z3(measure_states(r)["trace"])
    base.at(base.n)
    want = to_z3(base.G("painted", base.n))
    if debug:
        want = X.EXT(want, dbg)
    ctx.reach("painted")
    ctx.prove("a hidden box paints nothing", z3.Implies(z3.Not(vis(step.e)), got == X.START))
    ctx.prove("a shown box paints its items and children once, in order",
              z3.Implies(vis(step.e), got == want))


@unit("Box.get_painters: any number of children, any nesting")
def u_painters(ctx):
    painters_unit(ctx, False)


@unit("Box.get_painters with debug boxes")
def u_painters_debug(ctx):
    painters_unit(ctx, True)


@unit("InkscapeBackend.create_render_unit: any number of items")
def u_svg(ctx):
    from props import _box as X

    def make(mod):
        b = object.__new__(mod.InkscapeBackend)
        b.inkscape = None
        return b
    u, box = X.rendered(ctx, "elsie.render.backends.svg.backend", None, "SvgRenderingContext", make)
    ctx.prove("the page is the drawn one", u.svg == "page")


@unit("CairoBackend.create_render_unit: any number of items")
def u_cairo(ctx):
    from props import _box as X

    def make(mod):
        b = object.__new__(mod.CairoBackend)
        b.dimensions, b.cache_dir = (100, 100), "."
        return b
    u, box = X.rendered(ctx, "elsie.render.backends.cairo.backend", None, "CairoRenderingContext", make)
    ctx.prove("the page is the drawn one", u.ctx is box.made)


@unit("z level of boxes and items")
def u_z(ctx):
    from pyvc.core import mk
    from pyvc.interp import Interp
    from pyvc.values import mk_eq
    from props import _box as X
    from elsie.boxtree.boxitem import SimpleBoxItem
    I = Interp(ctx)
    slide = X.Slide(ctx, ctx.int("max_step"))
    z, given = ctx.int("z"), ctx.int("given")
    parent = X.bare_box(I, ctx, slide, None, z_level=z, layout=X.layout(ctx))
    X.selectors(ctx)
    kw = {} if ctx.choose(2, "z_level") else {"z_level": given}
    item = I.call(SimpleBoxItem, (parent, None))
    via = (parent, item)[ctx.choose(2, "via")]
    name = ("box", "overlay", "fbox", "sbox")[ctx.choose(4, "method")]
    nb = I.call(getattr(via, name), (), kw)
    ctx.reach("made")
    ctx.prove("the z level is the given one, else that of the parent", mk_eq(nb.z_level, kw.get("z_level", z)))
    ctx.prove("an item has the level of its box", mk_eq(item.z_level, z))
    it2 = I.call(SimpleBoxItem, (nb, None))
    ctx.prove("an item has the level of its box", mk_eq(it2.z_level, kw.get("z_level", z)))
    it3 = I.call(nb.rect, (), dict(bg_color="red"))
    ctx.prove("an item has the level of its box", mk_eq(it3.z_level, kw.get("z_level", z)))
