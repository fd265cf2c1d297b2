"""F02 pages per slide."""
from pyvc.api import bounded, unit
from pyvc import decks

IMG = """<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape'
 width='10' height='10'>%s</svg>"""


def image_file(labels):
    f = decks.fresh_dir() + "/i.svg"
    body = "".join("<g inkscape:label='x **%s**'><rect width='1' height='1'/></g>" % l for l in labels)
    with open(f, "w") as fh:
        fh.write(IMG % body)
    return f


@bounded("decks", "random decks of 1-4 slides with nested boxes, selectors and images with fragments; number and "
                  "order of pages, current fragment after every step")
def page_counts(B):
    rng = B.rng
    imgs = [([], 1), (["1"], 1), (["1-2", "3+"], 3), (["4"], 4), (["2", "2+"], 2)]
    files = [(image_file(l), n) for l, n in imgs]
    for it in range(B.n(150, 2500)):
        d = decks.deck()
        desc, slides, want = [], [], []
        for si in range(rng.randint(1, 4)):
            root = d.new_slide()
            root.rect(bg_color="s%d" % si)
            slides.append(root.slide)
            cur = 1
            boxes = [root]
            log = []
            for _ in range(rng.randint(0, 6)):
                b = rng.choice(boxes)
                k = rng.randint(0, 9)
                if k < 7:
                    n = rng.randint(1, 6)
                    m = n + rng.randint(0, 2)
                    sel, hi = rng.choice([(None, 1), (n, n), (str(n), n), ("%d+" % n, n), ("%d-%d" % (n, m), m),
                                          ("%d,%d" % (m, n), m), ("next", cur + 1), ("next+", cur + 1),
                                          ("last", cur), ("last+", cur), ("%d, 2+" % n, max(n, 2))])
                    boxes.append(b.box(show=sel))
                    cur = max(cur, hi)
                    log.append(("box", sel))
                else:
                    f, n = rng.choice(files)
                    beg = rng.randint(1, 3)
                    mode = rng.randint(0, 2)
                    if mode == 0:
                        b.image(f, show_begin=beg)
                        cur = max(cur, beg - 1 + n)
                    elif mode == 1:
                        b.image(f, show_begin=beg, fragments=False)
                        cur = max(cur, beg)
                    else:
                        sel = [rng.choice([None, 1, 2]) for _ in range(rng.randint(1, 3))]
                        b.image(f, show_begin=beg, select_fragments=sel)
                        cur = max(cur, beg - 1 + len(sel))
                    log.append(("image", n, beg, mode))
                B.case(log, trivial=True)
                B.eq(root.current_fragment(), cur, "current fragment", log=log)
                B.eq(boxes[-1].current_fragment(), cur, "current fragment of a box", log=log)
            desc.append(log)
            want.append(cur)
        B.case(desc)
        for slide, w in zip(slides, want):
            B.eq(slide.current_fragment(), w, "current fragment at the end (other slides must not matter)",
                 deck=desc)
        sel = None
        order = list(range(len(slides)))
        if rng.random() < 0.4:
            order = [rng.randrange(len(slides)) for _ in range(rng.randint(1, 4))]
            sel = [slides[i] for i in order]
        us = decks.units(d, select_slides=sel)
        got = [(u.slide, u.step) for u in us]
        exp = [(slides[i], s) for i in order for s in range(1, want[i] + 1)]
        B.check(len(got) == len(exp) and all(g[0] is e[0] and g[1] == e[1] for g, e in zip(got, exp)),
                "pages", got=[(slides.index(g[0]), g[1]) for g in got],
                want=[(slides.index(e[0]), e[1]) for e in exp], deck=desc)
        for u, (s, k) in zip(us, exp):
            fill = decks.style_of(decks.parse(u.get_svg()).find(".//s:rect", decks.NS))["fill"]
            B.eq(fill, "s%d" % slides.index(s), "content of the page", deck=desc)


# ------------------------------------------------------------------ proofs
@unit("Box._traverse: every box once")
def u_traverse(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import Base, VList, VSeq, absorb, measure_states, mk_eq, seg_list
    from props import _box as X
    from elsie.boxtree.boxitem import SimpleBoxItem
    own = z3.Const("the_box", X.ELEM)
    X.trace(ctx, lambda x: own)
    I = Interp(ctx)
    base = Base(ctx.int("n"), "children")
    isbox = z3.Function("is_box", X.Z, X.B_)
    run = z3.Function("visit_child", X.Z, X.M, X.M)
    slide = X.Slide(ctx, ctx.int("max_step"))
    b = X.bare_box(I, ctx, slide, None)
    log = VList(tag="log")

    def elem(k):
        o = X.bare_box(I, ctx, slide, None) if ctx.branch(isbox(k)) else I.call(SimpleBoxItem, (b, None))
        object.__setattr__(o, "_pyvc_child", k)
        return o
    b.children = VSeq(base, elem)

    def visit(box):
        ctx.prove("the box itself is visited", box is b)
        I.list_method(log, "append", (box,), {})
    visit.__module__ = "props.F02"

    def traverse(self, fn):
        if not hasattr(self, "_pyvc_child"):
            return NotImplemented
        ctx.prove("the same visitor is used", fn is visit)
        k = self._pyvc_child
        absorb(log, seg_list({"trace": lambda s: run(k, to_z3(s))}))
        return None
    traverse.__module__ = "props.F02"
    ctx.contracts["boxtree.box.Box._traverse"] = traverse
    base.fold("below", X.M, X.EXT(X.START, own),
              lambda k, G: z3.If(isbox(k), run(k, to_z3(G("below"))), to_z3(G("below"))))
    I.call(b._traverse, (visit,))
    ctx.reach("visited")
    ctx.prove("every box is visited once", mk_eq(measure_states(log)["trace"], base.G("below", base.n)))


@unit("Slide.steps: the highest fragment required by any box")
def u_steps(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp, max2
    from pyvc.values import Base, ForAll, Measure, VSeq, mk_eq
    from props import _box as X
    from elsie.slides.slide import Slide
    I = Interp(ctx)
    ctx.measures["some"] = Measure("some", X.B_, z3.BoolVal(False), lambda get, v: mk(
        z3.Or(to_z3(get("some")), to_z3(v) != 0)))
    ctx.measures["positive"] = ForAll("positive", lambda v: v >= 1)
    ctx.measures["top"] = Measure("top", X.Z, z3.IntVal(1), lambda get, v: max2(get("top"), v))
    base = Base(ctx.int("n"), "boxes")
    need = z3.Function("needs", X.Z, X.Z)
    base.fold("top", X.Z, z3.IntVal(1), lambda k, G: max2(G("top"), mk(need(k))))

    class ABox:
        _pyvc_stub = True

        def __init__(self, k):
            ctx.assume(need(k) >= 1)
            self.k = k

        def _min_steps(self):
            return mk(need(self.k))

    class Root:
        _pyvc_stub = True

        def _traverse(self, fn):
            I.helper("h_foreach", VSeq(base, ABox), fn)
    s = object.__new__(Slide)
    s._box = Root()
    r = I.call(s.steps)
    ctx.reach("counted")
    ctx.prove("the number of pages is the highest fragment", mk_eq(r, base.G("top", base.n)))


@unit("current fragment: boxes and images")
def u_current(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp, max2
    from pyvc.values import mk_eq
    from props import _box as X
    from elsie.boxtree.boxitem import SimpleBoxItem
    from elsie.slides.slide import Slide
    from elsie.slides.show import ShowInfo
    I = Interp(ctx)
    case = ctx.choose(3, "case")
    if case == 0:
        s = I.call(Slide, (), dict(slides=None, index=ctx.int("i"), width=100, height=100, styles={}, fs_cache=None,
                                   temp_cache=None, view_box=None, name=None, debug_boxes=False))
        ctx.reach("slide")
        ctx.prove("the current fragment starts at 1", mk_eq(I.call(s.current_fragment), 1))
        ctx.prove("the root box is shown in every fragment", I.truth(I.call(s._box._show_info.is_visible, (1,))))
        ctx.prove("the root box requires one fragment", mk_eq(I.call(s._box._min_steps), 1))
        return
    c = ctx.int("max_step")
    ctx.assume(c >= 1)
    slide = X.Slide(ctx, c)
    log = []
    X.selectors(ctx, log)
    parent = X.bare_box(I, ctx, slide, X.Show(lambda s: s >= 1, 1), layout=X.layout(ctx))
    via = (parent, I.call(SimpleBoxItem, (parent, None)))[ctx.choose(2, "via")]
    if case == 1:
        top = z3.Function("top_of", X.Z, X.Z)

        def highest(cur):
            return mk(top(to_z3(cur)))
        sel = None if ctx.choose(2, "selector") else X.Sel(highest)
        nb = I.call(via.box, (), dict(show=sel))
        want = highest(c) if sel is not None else 1
        ctx.reach("box")
        ctx.prove("a selector is read once, with the current fragment", len(log) == 1 and log[0][0] is sel)
        ctx.prove("a selector is read with the current fragment", mk_eq(log[0][1], c))
        ctx.prove("a box requires its highest fragment", mk_eq(I.call(nb._min_steps), want))
        ctx.prove("the box is shown by its selector", getattr(nb._show_info, "sel", None) is sel)
        ctx.prove("the new current fragment is the highest mentioned", mk_eq(slide.max_step, max2(c, want)))
        ctx.prove("current fragment of a box", mk_eq(I.call(nb.current_fragment), slide.max_step))
        ctx.prove("the enclosing box requires what it did", mk_eq(I.call(parent._min_steps), 1))
    else:
        old, m = ctx.int("had"), ctx.int("needs")
        ctx.assume(old >= 1)
        ctx.assume(m >= 0)
        show = I.call(ShowInfo, ((old,),))
        b = X.bare_box(I, ctx, slide, show, layout=X.layout(ctx))
        q = ctx.int("fragment")
        I.call(b._ensure_steps, (m,))
        ctx.reach("image")
        ctx.prove("an image requires its fragments", mk_eq(I.call(b._min_steps), max2(max2(1, old), m)))
        ctx.prove("an image raises the current fragment", mk_eq(slide.max_step, max2(c, m)))
        ctx.prove("an image does not change where its box is shown",
                  to_z3(I.truth(I.call(b._show_info.is_visible, (q,)))) == (q == old).e)


@unit("rendering: one page per slide and fragment, in order", functions=["SlideDeck.render"])
def u_pages(ctx):
    from pyvc.values import mk_eq
    from props import _deck as D
    run = D.Run(ctx, types=("pdf",), grid=False)
    kw = {}
    if ctx.choose(2, "caches"):
        kw = dict(prune_cache=bool(ctx.choose(2, "prune")), save_cache=bool(ctx.choose(2, "save")))
    try:
        r = run.render(return_units=True, **kw)
    except D.Rejected:
        return
    ctx.reach("rendered")
    run.done()
    ctx.prove("the pages of every slide, fragments 1 to the number of its steps, in order",
              mk_eq(run.trace(r), run.pages()))
