"""S02 scoping of named styles."""
from pyvc.api import bounded, unit
from pyvc import decks
from elsie import TextStyle
from props.S01 import vals, ref, rnd


@bounded("histories", "random histories of set_style/update_style/get_style/new boxes/new slides over up to 8 containers "
                      "against a reference of dictionaries")
def histories(B):
    rng = B.rng
    for it in range(B.n(500, 8000)):
        d = decks.deck()
        names = ["default", "tt", "n1", "n2"]
        conts = [(d, {n: vals(d.get_style(n)) for n in names if d.has_style(n)})]
        log = []
        texts = []
        for _ in range(rng.randint(3, 14)):
            i = rng.randrange(len(conts))
            c, m = conts[i]
            k = rng.randint(0, 5)
            n = rng.choice(names)
            st = rnd(rng, 0.4)
            if k == 0:
                if c is d:
                    c2 = d.new_slide()
                    kind = "slide"
                else:
                    c2 = c.box()
                    kind = "box"
                conts.append((c2, dict(m)))
                log.append((i, "new " + kind))
            elif k == 1:
                if n == "default":
                    st.setdefault("size", 5)
                r = c.set_style(n, TextStyle(**st))
                m[n] = ref({}, st)
                log.append((i, "set", n, st))
            elif k == 2:
                base = rng.choice(names)
                if base not in m or base == "default":
                    continue
                r = c.set_style(n, TextStyle(**st), base=base)
                m[n] = ref(m[base], st)
                log.append((i, "set", n, st, "base", base))
            elif k == 3:
                if n not in m:
                    continue
                r = c.update_style(n, TextStyle(**st))
                m[n] = ref(m[n], st)
                log.append((i, "update", n, st))
            elif k == 4:
                if n not in m:
                    continue
                g = c.get_style(n, full_style=rng.random() < 0.5)
                g.update(TextStyle(size=123, color="poison"))
                log.append((i, "use returned", n))
            else:
                # a style object given by the user and changed by the container later must not leak back
                if n not in m:
                    continue
                u = TextStyle(**st)
                c.update_style(n, u)
                m[n] = ref(m[n], st)
                B.eq(vals(u), ref({}, st), "the style given to update_style changed", log=log)
                log.append((i, "update", n, st))
            for j, (cc, mm) in enumerate(conts):
                for nm in names:
                    B.check(cc.has_style(nm) == (nm in mm), "has_style", container=j, name=nm, log=log)
                    if nm in mm:
                        B.eq(vals(cc.get_style(nm)), mm[nm], "style %s seen by container %d" % (nm, j), log=log)
        B.case(log)


@bounded("set returned", "style objects returned by set_style/update_style and objects given to them")
def returned(B):
    for op in ("set", "based", "update"):
        for change in ("returned", "given"):
            B.case((op, change))
            d = decks.deck()
            s = d.new_slide()
            other = s.box()
            s.set_style("n", TextStyle(size=5))
            early = s.box()
            given = TextStyle(color="c1")
            if op == "set":
                r = s.set_style("m", given)
            elif op == "based":
                r = s.set_style("m", given, base="n")
            else:
                s.set_style("m", TextStyle(size=6))
                r = s.update_style("m", given)
            (r if change == "returned" else given).update(TextStyle(font="poison"))
            for c, nm in ((other, "m"), (early, "m"), (d, "m")):
                B.check(not c.has_style(nm), "a style leaks to a container that did not receive it")
            B.eq(early.get_style("n").size, 5, "base style")
            B.check(early.get_style("n").font is None and s.get_style("n").font is None,
                    "changing a returned style changes its base", op=op)


@bounded("drawn", "texts already drawn keep their style after later definitions; later texts use the new one")
def drawn(B):
    for where in range(3):
        for op in range(2):
            B.case((where, op))
            d = decks.deck()
            s = d.new_slide()
            p = s.box()
            b = p.box()
            tgt = [s, p, b][where]
            tgt.set_style("n", TextStyle(color="old"))
            b2 = b if where == 2 else tgt.box()
            b2.text("a ~n{x}", TextStyle(size=10))
            if op:
                tgt.set_style("n", TextStyle(color="new"))
            else:
                tgt.update_style("n", TextStyle(color="new"))
            tgt.update_style("default", TextStyle(color="dnew"))
            tgt.box().text("b ~n{y}", TextStyle(size=10))
            page = decks.svgs(d)[0]
            B.check("fill:old" in page and page.index("fill:old") < page.index("fill:new"), "colours of the texts",
                    page=page)
            B.eq(page.count("fill:old"), 1, "old style uses")
            B.eq(page.count("fill:new"), 1, "new style uses")


@bounded("slides", "deck styles: slides created before and after a change, slides do not influence each other")
def slides(B):
    for first in (True, False):
        B.case(first)
        d = decks.deck()
        a = d.new_slide()
        d.set_style("n", TextStyle(size=1))
        b = d.new_slide()
        d.update_style("n", TextStyle(size=2))
        c = d.new_slide()
        b.update_style("n", TextStyle(size=7))
        b.update_style("tt", TextStyle(size=8))
        e = d.new_slide()
        B.check(not a.has_style("n"), "slide created before the definition")
        B.eq([x.get_style("n").size for x in (b, c, e, d)], [7, 2, 2, 2], "styles of the slides")
        B.eq([x.get_style("tt").size for x in (a, c, e, d)], [None] * 4, "style changed on one slide")


# ------------------------------------------------------------------ proofs
def container(I, ctx, kind, styles):
    from props import _box as X
    from elsie.text.stylecontainer import StyleContainer
    if kind == 0:
        return I.call(StyleContainer, (styles,))
    if kind == 1:
        return X.bare_box(I, ctx, X.Slide(ctx, 1), X.Show(lambda s: s >= 1, 1), styles, layout=X.layout(ctx))
    d = decks.deck()
    d._styles = styles
    return d


@unit("defining a style changes that container's map only, at that name only",
      functions=["StyleContainer.set_style", "StyleContainer.update_style", "StyleContainer.get_style"])
def u_define(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from props import _style as T
    I = Interp(ctx)
    at = T.slots()
    T.compose_contract(ctx, at)
    names, log = T.Names(ctx, at), []
    old = T.Styles(ctx, names, log)
    c = container(I, ctx, ctx.choose(3, "container"), old)
    name, q = ctx.str("name"), ctx.str("asked")
    given = T.any_style(ctx, at, "given")
    vg = T.fields(given, at)
    op = ("set", "based", "based on the default", "update")[ctx.choose(4, "operation")]
    base = base_style = None
    if op == "based":
        base = ctx.str("base")
        ctx.assume(to_z3(base) != z3.StringVal("default"))
    prev = names(name) if op == "update" else None
    base_style = names(base) if op == "based" else None
    kw = {"base": base} if op == "based" else {"base": "default"} if op == "based on the default" else {}
    try:
        r = I.call(c.update_style if op == "update" else c.set_style, (name, given), kw)
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("rejected %s" % op)
        ctx.prove("only unknown names are rejected",
                  op == "update" and prev is None or op == "based" and base_style is None)
        ctx.prove("a rejected definition keeps the container", c._styles is old)
        ctx.prove("a rejected definition writes no map", not old.written())
        names.unchanged("a rejected definition keeps all styles")
        T.same_style(ctx, "a rejected definition keeps the given style", T.fields(given, at), vg)
        return
    ctx.reach("%s" % op)
    ctx.prove("unknown names are rejected",
              not (op == "update" and prev is None or op == "based" and base_style is None))
    names.unchanged("styles others see are never written")
    ctx.prove("maps others see are never written", not old.written())
    if op != "set":
        T.same_style(ctx, "the style given is not changed", T.fields(given, at), vg)
    new = c._styles
    ctx.prove("the container has its own map", new is not old and isinstance(new, T.Styles))
    got = new.find(name)
    ctx.prove("the name is defined", isinstance(got, TextStyle))
    want = vg
    if op == "based":
        want = {p: T.over(vg[p], names.was(base_style)[p]) for p in at}
    elif op == "update":
        want = {p: T.over(vg[p], names.was(prev)[p]) for p in at}
    T.same_style(ctx, "the style defined by %s" % op, T.fields(got, at), want)
    T.same_style(ctx, "the style returned by %s" % op, T.fields(r, at), want)
    for s, _ in names.before:
        ctx.prove("the style returned is not one others see", r is not s and got is not s)
    # another name
    if ctx.branch(to_z3(q) != to_z3(name)):
        a, b = new.find(q), names(q)
        ctx.reach("another name")
        ctx.prove("other names stay as they were", (a is None) == (b is None))
        if a is not None and b is not None:
            T.same_style(ctx, "other names keep their style", T.fields(a, at), names.was(b))
    # lookups through the container
    s = I.call(c.get_style, (name,))
    T.same_style(ctx, "the style found later", T.fields(s, at), want)
    ctx.prove("a lookup is a copy", s is not got and s is not given)


@unit("a new box or slide sees the styles of its container", functions=["BoxMixin.box", "SlideDeck.new_slide"])
def u_create(ctx):
    from pyvc.interp import Interp
    from props import _box as X
    from props import _style as T
    I = Interp(ctx)
    at = T.slots()
    T.compose_contract(ctx, at)
    X.selectors(ctx)
    names, log = T.Names(ctx, at), []
    old = T.Styles(ctx, names, log)
    kind = ctx.choose(2, "container")
    c = container(I, ctx, 1 + kind, old)
    changed = bool(ctx.choose(2, "changed before"))
    n, q = ctx.str("name"), ctx.str("asked")
    if changed:
        given = T.any_style(ctx, at, "given")
        I.call(c.set_style, (n, given))
    mine = c._styles
    k = mine._first, len(mine._own)
    if kind:
        r = I.call(c.new_slide, ())
    else:
        r = I.call(getattr(c, ("box", "overlay", "fbox", "sbox")[ctx.choose(4, "method")]), ())
    ctx.reach("created")
    ctx.prove("the container keeps its styles", c._styles is mine and (mine._first, len(mine._own)) == k
              and not old.written())
    names.unchanged("creating keeps all styles")
    a, b = r._styles.find(q), mine.find(q)
    ctx.prove("a new box sees the names of its container", (a is None) == (b is None))
    if a is not None and b is not None:
        T.same_style(ctx, "a new box sees the styles of its container", T.fields(a, at), T.fields(b, at))
    # a definition on the new box
    before, count = c._styles, len(c._styles._own)
    I.call(r.set_style, (n, T.any_style(ctx, at, "later")))
    ctx.prove("a definition on the new box does not reach its container", c._styles is before
              and len(before._own) == count)
    if changed:
        I.call(c.set_style, (n, T.any_style(ctx, at, "later")))
    mine = r._styles
    k = len(mine._own)
    I.call(c.set_style, (n, T.any_style(ctx, at, "later")))
    ctx.prove("a later definition does not reach the new box", r._styles is mine and len(mine._own) == k)
    names.unchanged("later definitions keep all styles")


@unit("a text keeps the styles it was made with", functions=["BoxMixin.text", "BoxMixin._text_helper", "TextBoxItem"])
def u_text(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from props import _box as X
    from props import _style as T
    I = Interp(ctx)
    at = T.slots()
    T.compose_contract(ctx, at)
    names, log = T.Names(ctx, at), []
    old = T.Styles(ctx, names, log)
    asked, passed = [], []

    def parse(*a, **kw):
        return [("text", "x")]
    ctx.contracts["text.textparser.parse_text"] = parse

    class Backend:
        _pyvc_stub = True

        def compute_text_width(self, parsed, style, styles, **kw):
            asked.append((T.fields(style, at), styles))
            return ctx.real("width")

    class TheDeck:
        _pyvc_stub = True
        backend = Backend()

    class Rect:
        _pyvc_stub = True
        x, y, width, height = 0, 0, 100, 100

    class L:
        _pyvc_stub = True
        rect = Rect()
        horizontal = False
        width_definition = height_definition = None

        def ensure_width(self, w):
            pass

        def ensure_height(self, h):
            pass

        def add_callback(self, f):
            pass

    class Page:
        _pyvc_stub = True

        def draw_text(self, **kw):
            passed.append((T.fields(kw["style"], at), kw["styles"]))
    sl = X.Slide(ctx, 1)
    sl.slides = TheDeck()
    b = X.bare_box(I, ctx, sl, X.Show(lambda s: s >= 1, 1), old, layout=L())
    # the default style has all properties of a text
    d = names.known[0][1]
    for p in ("size", "line_spacing", "align"):
        ctx.assume(z3.Not(getattr(d, at[p]).none))
    n, q = ctx.str("name"), ctx.str("asked")
    other = T.any_style(ctx, at, "own")
    st = (None, n, other)[ctx.choose(3, "style")]
    if st is None:
        want = names.was(d)
        args = ("x",)
    elif st is n:
        s = names(n)
        ctx.assume(z3.BoolVal(s is not None))
        if s is None:
            return
        is_d = s is d
        want = names.was(d) if is_d else {p: T.over(names.was(s)[p], names.was(d)[p]) for p in at}
        args = ("x", n)
    else:
        want = {p: T.over(T.fields(other, at)[p], names.was(d)[p]) for p in at}
        args = ("x", other)
    item = I.call(b.text, args)
    ctx.prove("the text is measured in its style", len(asked) == 1)
    # later definitions
    m = ctx.str("other name")
    if ctx.choose(2, "later"):
        I.call(b.set_style, (m, T.any_style(ctx, at, "later")))
    else:
        ctx.assume(z3.BoolVal(names(m) is not None))
        if names(m) is None:
            return
        I.call(b.update_style, (m, T.any_style(ctx, at, "later")))
    I.call(item.render, (Page(),))
    ctx.reach("drawn")
    ctx.prove("the text is drawn once", len(passed) == 1)
    for f, styles in asked + passed:
        T.same_style(ctx, "the style of the text", f, want)
        a, w = styles.find(q), names(q)
        ctx.prove("the text keeps the names it was made with", (a is None) == (w is None))
        if a is not None and w is not None:
            T.same_style(ctx, "the text keeps the named styles it was made with", T.fields(a, at), names.was(w))
    names.unchanged("drawing keeps all styles")
