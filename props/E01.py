"""E01 lists."""
from pyvc.api import bounded, unit
from pyvc import decks
from elsie.ext import ordered_list, unordered_list

PAGES = 7


class Lst:
    def __init__(self, builder, prefix, start, kind, label, args, parent, vis, z, box_args):
        self.b, self.prefix, self.n, self.kind, self.label = builder, prefix, start - 1, kind, label
        self.args, self.parent, self.vis, self.z, self.sub_args = args, parent, vis, z, box_args
        self.items = []


def sel(show, cur):
    """(visible pages, highest)"""
    if show is None:
        return set(range(1, 60)), 1
    if isinstance(show, int):
        return {show}, show
    plus = show.endswith("+")
    w = show.rstrip("+")
    n = cur + 1 if w == "next" else cur if w == "last" else int(w)
    return (set(range(n, 60)) if plus else {n}), n


@bounded("histories", "random interleavings of item and sublist creation in 1-3 lists nested up to 4 deep; label texts, "
                      "counters given to label functions, visible fragments and paint levels of every item")
def histories(B):
    rng = B.rng
    for it in range(B.n(150, 2500)):
        d = decks.deck(width=600, height=2000)
        root = d.new_slide()
        log, labels, want = [], [], []
        cur = [1]
        lists = []
        full = set(range(1, 60))

        def rnd_args(p):
            a = {}
            if rng.random() < p:
                a["show"] = rng.choice([None, 1, "2+", "next+", "last+", "next", "3", "last"])
                if a["show"] in ("next", "next+") and cur[0] >= PAGES - 1:
                    a["show"] = "2+"
            if rng.random() < p / 2:
                a["z_level"] = rng.choice([-1, 0, 2])
            return a

        def rnd_label(p, name):
            k = rng.random()
            if k > p:
                return None
            if k < p / 2:
                return "L" + name
            return lambda box, level, name=name: (
                labels.append((name, level, list(level))), box.rect(bg_color="F" + name))[1]

        def mk_box(args, parent_vis, parent_z):
            v, hi = sel(args.get("show"), cur[0])
            cur[0] = max(cur[0], hi)
            z = args.get("z_level")
            return parent_vis & v, parent_z if z is None else z

        fn_names = {}

        def new_top():
            a = rnd_args(0.3)
            lab = rnd_label(0.4, "t%d" % len(lists))
            fn_names[lab] = "t%d" % len(lists)
            host = root.box(x=0, y=0)
            args = dict({"show": "last+"}, **a)
            kw = {} if lab is None else {"label": lab}
            if rng.random() < 0.5:
                start = rng.choice([None, 0, 1, 5])
                b = ordered_list(host, **({} if start is None else {"start": start}), **kw, **a)
                lists.append(Lst(b, [], 1 if start is None else start, "ol", lab, args, None, full, 0, a))
            else:
                b = unordered_list(host, **kw, **a)
                lists.append(Lst(b, [], 1, "ul", lab, args, None, full, 0, a))
            log.append(("new", lists[-1].kind, a, lab))

        new_top()
        count = 0
        for _ in range(rng.randint(1, 14)):
            k = rng.random()
            if k < 0.1 and len(lists) < 3:
                new_top()
                continue
            l = rng.choice(lists)
            i = lists.index(l)
            if k < 0.6:
                count += 1
                name = "i%d" % count
                a = rnd_args(0.25)
                lab = rnd_label(0.25, name)
                fn_names[lab] = name
                log.append(("item of", i, a, lab))
                l.n += 1
                merged = dict(l.args, **a)
                vis, z = mk_box(merged, l.vis, l.z)
                kw = {} if lab is None else {"label": lab}
                box = l.b.item(**kw, **a)
                box.rect(bg_color=name, rx=1)
                act = lab if lab is not None else l.label
                lv = l.prefix + [l.n]
                if act is None:
                    text = ".".join(map(str, lv)) + "." if l.kind == "ol" else "\u2022"
                    box.box(width=1, height=1)
                elif callable(act):
                    text = None
                    B.check(labels and labels[-1][0] == fn_names[act], "label function called", log=log)
                    B.eq(list(labels[-1][2]), lv, "counters given to the label function", log=log)
                else:
                    text = act
                want.append((name, text, "F" + fn_names[act] if callable(act) else None, vis, z, l))
            else:
                dep, p = 0, l
                while p is not None:
                    dep, p = dep + 1, p.parent
                if dep >= 4:
                    continue
                a = rnd_args(0.25)
                lab = rnd_label(0.3, "s%d" % len(lists))
                fn_names[lab] = "s%d" % len(lists)
                kw = {} if lab is None else {"label": lab}
                vis, z = mk_box(dict(l.args, **a), l.vis, l.z)
                if rng.random() < 0.5:
                    start = rng.choice([None, 0, 1, 4])
                    lv = rng.choice([None, None, (), (7,), [1, 3]])
                    if start is not None:
                        kw["start"] = start
                    if lv is not None:
                        kw["level"] = lv
                    b = l.b.ol(**kw, **a)
                    pre = list(lv) if lv is not None else l.prefix + [l.n]
                    lists.append(Lst(b, pre, 1 if start is None else start, "ol", lab, dict(l.args, **a), l, vis, z, a))
                else:
                    b = l.b.ul(**kw, **a)
                    lists.append(Lst(b, l.prefix + [l.n], 1, "ul", lab, dict(l.args, **a), l, vis, z, a))
                log.append(("sub of", i, lists[-1].kind, kw, a))
        B.case(log)
        B.eq([x[1] is not None and tuple(x[1]) for x in labels], [tuple(x[2]) for x in labels],
             "counter lists handed out before stay as they were", log=log)
        root.box(show=PAGES)
        pages = [decks.parse(p) for p in decks.svgs(d)]
        B.eq(len(pages), max(PAGES, cur[0]), "pages", log=log)
        for pn, page in enumerate(pages):
            exp = sorted([w for w in want if pn + 1 in w[3]], key=lambda w: w[4])
            got = []
            for e in page.iter():
                if e.tag == decks.SVG + "text":
                    got.append(("text", "".join(e.itertext())))
                elif e.tag == decks.SVG + "rect":
                    got.append(("rect", decks.style_of(e).get("fill")))
            w2 = []
            # label first, then content; boxes of equal level keep their order in the tree
            by = {}
            for g in got:
                by.setdefault(g, 0)
                by[g] += 1
            for name, text, lf, vis, z, l in exp:
                if lf is not None:
                    w2.append(("rect", lf))
                else:
                    w2.append(("text", text.replace(" ", "\u00a0")))
                w2.append(("rect", name))
            B.eq(sorted(got), sorted(w2), "labels and items on page %d" % (pn + 1), log=log)
            pos = {g: i for i, g in enumerate(got)}
            for w in exp:
                if w[1] is not None:
                    i = pos[("rect", w[0])]
                    B.eq(got[i - 1], ("text", w[1].replace(" ", "\u00a0")), "label next to its item", log=log)
            order = [w[4] for g in got if g[0] == "rect" for w in exp if w[0] == g[1]]
            B.eq(order, sorted(order), "paint levels", log=log)


@bounded("misuse", "invalid labels and starts; labels from every level")
def misuse(B):
    d = decks.deck()
    for bad in (5, 2.5, ["a"], True and object()):
        s = d.new_slide()
        B.case(repr(type(bad)))
        B.raises(lambda: unordered_list(s).item(label=bad), "label that is no text and no function")
    s = d.new_slide()
    B.case("negative start")
    B.raises(lambda: ordered_list(s).ol(start=-1), "negative start")


@bounded("place", "random lists without explicit positions: items stacked in order of creation inside their list, "
                  "left edges equal in a list and growing with the indentation of sublists, label left of its item, "
                  "label padding")
def place(B):
    rng = B.rng
    for it in range(B.n(120, 2000)):
        d = decks.deck(width=2000, height=5000)
        s = d.new_slide()
        host = s.box(x=0, y=0, width=1500)
        ind = rng.choice([0, 5, 10, 30])
        pad = rng.choice([0, 7, 25])
        top = rng.choice([ordered_list, unordered_list])(host, indent=ind, label_padding=pad)
        lists = [(top, 0, None)]
        ind_of = [ind]
        rows, log = [], []
        for _ in range(rng.randint(2, 10)):
            i = rng.randrange(len(lists))
            l, dep, par = lists[i]
            if rng.random() < 0.7:
                lp = rng.choice([None, None, 0, 11])
                lab = {}
                box = l.item(label=lambda b, lv, lab=lab: lab.update(box=b.box(width=20, height=5)),
                             **({} if lp is None else {"label_padding": lp}))
                box.box(width=40, height=8)
                rows.append((i, box, lab["box"], pad if lp is None else lp))
                log.append(("item", i, lp))
            elif dep < 3:
                si = rng.choice([None, 0, 12])
                b = getattr(l, rng.choice(["ol", "ul"]))(**({} if si is None else {"indent": si}))
                lists.append((b, dep + 1, (i, si if si is not None else ind_of[i])))
                ind_of.append(si if si is not None else ind_of[i])
                log.append(("sub", i, si))
        B.case((ind, pad, log))
        decks.svgs(d)
        left = {}
        for i, box, lb, p in rows:
            r, lr = decks.frect(box), decks.frect(lb)
            # content = behind the label and the padding
            B.eq(r[0], lr[0] + 20 + p, "item starts behind its label and the padding", log=log, row=i)
            B.eq(left.setdefault(i, lr[0]), lr[0], "left edge of the labels of one list", log=log)
        for i, (l, dep, par) in enumerate(lists):
            if par is not None and i in left and par[0] in left:
                if par[1]:
                    B.check(left[i] >= left[par[0]] + par[1] - 1e-9, "sublist is indented", log=log, left=left)
                else:
                    B.check(left[i] >= left[par[0]] - 1e-9, "sublist is not left of its list", log=log, left=left)
        # one list without interleaved sublists: in order of creation
        last = {}
        for i, box, lb, p in rows:
            y = decks.frect(box)[1]
            if i in last:
                B.check(y >= last[i] + 8 - 1e-6, "items of a list are stacked in order", log=log)
            last[i] = y


# ------------------------------------------------------------------ proofs
class Host:
    """a box of the deck, as far as lists use it"""
    _pyvc_stub = True

    def __init__(self, ctx, parent=None, args=None):
        self.ctx, self.parent, self.args = ctx, parent, args or {}
        self.made, self.texts, self.styles = [], [], []

    def box(self, x=None, y=None, width=None, height=None, **kw):
        kw.update({k: v for k, v in dict(x=x, y=y, width=width, height=height).items() if v is not None})
        b = Host(self.ctx, self, kw)
        self.made.append(b)
        return b

    def sbox(self, **kw):
        return self.box(**kw)

    def text(self, text, style="default", **kw):
        self.texts.append(text)
        return self

    def update_style(self, name, style):
        self.styles.append((name, style))

    def set_style(self, name, style, **kw):
        self.styles.append((name, style))


class Given:
    """a value given by the user"""
    _pyvc_stub = True

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Label:
    """a label function of the user: it may do to its list of counters what it wants"""

    def __init__(self, run, name):
        self.run, self.name, self.calls = run, name, []

    def fn(self):
        def label(box, level):
            self.calls.append((box, self.run.counters(level)))
            self.run.I.list_method(level, "append", (7,), {})
            return None
        label.__module__ = "props.E01"
        label.owner = self
        return label


class Run:
    def __init__(self, ctx):
        import z3
        from pyvc.core import to_z3
        from pyvc.interp import Interp
        from pyvc.values import Measure, NotApplicable, seg_list
        from pyvc.core import is_num
        from props._box import M, START, Z
        self.ctx, self.I = ctx, Interp(ctx)
        self.EXT = z3.Function("then_counter", M, Z, M)

        def step(get, x):
            if not is_num(x) and type(x) is not int:
                raise NotApplicable()
            return self.EXT(get("counters"), to_z3(x))
        ctx.measures["counters"] = Measure("counters", M, START, step)
        self.outer = ctx.fresh("outer_counters", M)
        n = ctx.fresh("outer_depth", Z)
        ctx.assume(n >= 0)
        ctx.assume((n == 0) == (self.outer == START))
        self.list = seg_list({"counters": lambda s: self.outer}, length=n, shapes=[("num", "int")])
        self.defaults = []
        ctx.contracts["ext.list.arabic_digit_render_fn"] = self.arabic

    def arabic(self, box, level):
        self.defaults.append((box, self.counters(level)))
        self.I.list_method(level, "append", (7,), {})

    def counters(self, level):
        from pyvc.values import NA, measure_states
        s = measure_states(level)["counters"]
        return None if s is NA else s

    def same(self, a, b):
        import z3
        return z3.BoolVal(False) if a is None else a == b

    def more(self, s, n):
        from pyvc.core import to_z3
        return self.EXT(s, to_z3(n))

    def top(self, kind, host, **kw):
        kw = {k: v for k, v in kw.items() if v is not None}
        return self.I.call(ordered_list if kind == "ol" else unordered_list, (host,), kw)

    def args(self, i):
        """box arguments given at place i"""
        keys = ((), ("show",), ("z_level",), ("show", "z_level", "name"))[self.ctx.choose(4, "arguments at %s" % i)]
        return {k: Given("%s at %s" % (k, i)) for k in keys}


ITEM = ["ListBuilder.item", "ListBuilder.ol", "ListBuilder.ul", "ListBuilder._create_sublist", "ListBuilder._create_box",
        "ListBuilder.__init__", "ordered_list", "unordered_list"]


@unit("counters: an item counts up its own list, sublists start behind the counters of their list", functions=ITEM)
def u_counters(ctx):
    r = Run(ctx)
    I = r.I
    s, t = ctx.int("start"), ctx.int("start_of_sublist")
    ctx.assume(s >= 0)
    ctx.assume(t >= 0)
    host = Host(ctx)
    lab, sub_lab = Label(r, "list"), Label(r, "sublist")
    top = r.top("ol", host)
    I.sites.append("list")
    lst = I.call(top.ol, (r.list,), {"start": s, "label": lab.fn()})
    I.sites.pop()
    I.sites.append("first item")
    I.call(lst.item)
    I.sites.pop()
    ctx.prove("the first item shows the start behind the counters around",
              len(lab.calls) == 1 and r.same(lab.calls[0][1], r.more(r.outer, s)))
    kind = ("ol", "ul", "given", "sibling")[ctx.choose(4, "kind")]
    ctx.reach(kind)
    I.sites.append("sublist")
    kw = {"label": sub_lab.fn()}
    pre = r.more(r.outer, s)
    first = t
    if kind == "given":
        l2 = I.list_method(r.list, "copy", (), {})
        I.list_method(l2, "append", (4,), {})
        sub = I.call(lst.ol, (l2,), dict(kw, start=t))
        pre = r.more(r.outer, 4)
    elif kind == "ol":
        sub = I.call(lst.ol, (), dict(kw, start=t))
    elif kind == "ul":
        sub = I.call(lst.ul, (), kw)
        first = 1
    else:
        sub = I.call(top.ol, (r.list,), dict(kw, start=t))
        pre = r.outer
    I.sites.pop()
    from pyvc.core import to_z3
    for i in range(3):
        I.sites.append("round %d" % i)
        if i != 1:
            I.call(sub.item)
            ctx.prove("items of a sublist are counted from its start", len(sub_lab.calls) == (2 if i else 1) and
                      r.same(sub_lab.calls[-1][1], r.more(pre, to_z3(first) + (1 if i else 0))))
        I.call(lst.item)
        ctx.prove("only items of a list count", len(lab.calls) == i + 2 and
                  r.same(lab.calls[-1][1], r.more(r.outer, to_z3(s) + i + 1)))
        I.sites.pop()


@unit("labels come from the item, else from its list, else from the kind of the list", functions=ITEM, budget=200)
def u_labels(ctx):
    import z3
    from props._box import START
    r = Run(ctx)
    I = r.I
    s = ctx.int("start")
    ctx.assume(s >= 0)
    host = Host(ctx)
    kind = ("ol", "ul")[ctx.choose(2, "kind")]
    place = ("top", "nested")[ctx.choose(2, "place")]
    text, text2 = ctx.str("label_of_list"), ctx.str("label_of_item")
    ctx.assume(z3.Length(text.expr()) > 0)
    f, g = Label(r, "list"), Label(r, "item")
    of_list = (None, text, f)[ctx.choose(3, "label of list")]
    of_item = (None, text2, g, 5)[ctx.choose(4, "label of item")]
    kw = {} if of_list is None else {"label": of_list.fn() if of_list is f else of_list}
    pad, pad2, ind = ctx.real("padding"), ctx.real("item_padding"), ctx.real("indent")
    I.sites.append("list")
    if place == "top":
        lst = r.top(kind, host, label_padding=pad, start=s if kind == "ol" else None, **kw)
        want = r.more(START, s if kind == "ol" else 1)
        mark = host
    else:
        top = r.top("ul", host, label_padding=pad, label="outer")
        lst = I.call(getattr(top, kind), (r.list,) if kind == "ol" else (), dict(
            kw, **({"start": s} if kind == "ol" else {})))
        want = r.more(r.outer, s)
    I.sites.pop()
    kw = {} if of_item is None else {"label": of_item.fn() if of_item is g else of_item}
    own_pad = bool(ctx.choose(2, "padding of item"))
    if own_pad:
        kw["label_padding"] = pad2
    I.sites.append("item")
    try:
        box = I.call(lst.item, (), kw)
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("refused")
        ctx.prove("only labels that are no text and no function are refused", of_item == 5)
        return
    ctx.reach("%s %s" % (kind, place))
    ctx.prove("a label that is no text and no function is refused", of_item is None or of_item is text2 or of_item is g)
    act = of_item if of_item is not None else of_list if of_list is not None else kind
    row = box.parent
    ctx.prove("the item has a box", isinstance(box, Host) and row is not None and box is not row)
    labels = [b for b in row.made if b is not box]
    ctx.prove("one box for the label, in front of the item", len(labels) == 1 and row.made[-1] is box)
    lb = labels[0]
    calls = {"list": f.calls, "item": g.calls, "default": r.defaults}
    src = "list" if act is f else "item" if act is g else "default" if act is kind and kind == "ol" else None
    for k, c in calls.items():
        ctx.prove("the right label is used", len(c) == (k == src))
    if src is not None:
        ctx.prove("the label is drawn into its box", calls[src][0][0] is lb)
        if not (kind == "ul" and place == "nested"):
            ctx.prove("the label gets the counters", r.same(calls[src][0][1], want))
        ctx.prove("no other label", not lb.texts)
    else:
        ctx.prove("one label", len(lb.texts) == 1)
        ctx.prove("the text of the label", I.truth(I.eq(lb.texts[0], "\u2022" if act is kind else act)))
    ctx.prove("label padding", I.eq(box.args.get("p_left"), pad2 if own_pad else pad))
    ctx.prove("label and item stand side by side", row.args.get("horizontal") is True)
    ctx.prove("the item takes the rest of the line", box.args.get("width") == "fill")


@unit("box arguments come from the call, else from the enclosing lists", functions=ITEM, budget=300)
def u_args(ctx):
    import z3
    from pyvc.core import to_z3
    r = Run(ctx)
    I = r.I
    host = Host(ctx)
    kinds = [("ol", "ul")[ctx.choose(2, "kind %d" % i)] for i in range(2)]
    a = [r.args(i) for i in range(3)]
    i1, i2 = ctx.real("indent"), ctx.real("indent_of_sublist")
    own = bool(ctx.choose(2, "own indent"))
    I.sites.append("top")
    top = r.top(kinds[0], host, indent=i1, label="x", **a[0])
    I.sites.pop()
    ctx.prove("a list has its own box", len(host.made) == 1)
    area = host.made[0]
    I.sites.append("sub")
    sub = I.call(getattr(top, kinds[1]), (), dict(a[1], label="y", **({"indent": i2} if own else {})))
    I.sites.pop()
    ctx.prove("a sublist has its own box in its list", len(area.made) == 1)
    area2 = area.made[0]
    I.sites.append("item of sub")
    x = I.call(sub.item, (), dict(a[2]))
    I.sites.pop()
    I.sites.append("item")
    y = I.call(top.item)
    I.sites.pop()
    I.sites.append("item with arguments")
    z = I.call(top.item, (), dict(a[2]))
    I.sites.pop()
    ctx.reach("done")

    def expect(b, what, *src):
        want = {"show": "last+"}
        for s in src:
            want.update(s)
        for k in ("show", "z_level", "name"):
            ctx.prove("%s of %s" % (k, what), b.args.get(k) is want.get(k) or b.args.get(k) == want.get(k))
    ctx.prove("the items are in the boxes of their lists", x.parent.parent is area2 and y.parent.parent is area
              and z.parent.parent is area)
    expect(area2, "a sublist", a[0], a[1])
    expect(x.parent, "an item of a sublist", a[0], a[1], a[2])
    expect(y.parent, "an item without arguments", a[0])
    expect(z.parent, "an item", a[0], a[2])
    step = i2 if own else i1
    left = I.eq(y.parent.args.get("p_left"), z.parent.args.get("p_left"))
    ctx.prove("items of a list have the same left edge", left)
    inner, outer = area2.args.get("p_left") + x.parent.args.get("p_left"), y.parent.args.get("p_left")
    ctx.prove("a sublist is indented", z3.Implies(to_z3(step) >= 0, to_z3(inner) >= to_z3(outer) + to_z3(step)))


@unit("the default label of ordered lists: the counters with dots", functions=["arabic_digit_render_fn"])
def u_arabic(ctx):
    import z3
    from pyvc import core
    from pyvc.core import SStr, Unsupported, mk, to_z3
    from pyvc.interp import Interp, MList
    from pyvc.strs import SJoin
    from pyvc.values import Base, VSeq
    from elsie.ext.list import arabic_digit_render_fn
    I = Interp(ctx)
    n = ctx.int("depth")
    ctx.assume(n >= 1)
    L = z3.Function("counter", z3.IntSort(), z3.IntSort())
    base = Base(n, "levels")
    S = z3.StringSort()
    base.fold("dotted", S, z3.StringVal(""), lambda k, G: z3.Concat(to_z3(G("dotted")), to_z3(core.int_to_str(L(k))), z3.StringVal(".")))
    box = Host(ctx)
    I.call(arabic_digit_render_fn, (box, MList(VSeq(base, lambda k: mk(L(k))))))
    ctx.prove("one label", len(box.texts) == 1)
    t = box.texts[0]
    out = []
    for i, p in enumerate(t.parts if isinstance(t, SStr) else (t,)):
        if isinstance(p, SJoin):
            seq = p.seq
            nm = "join %d" % i
            if not isinstance(seq, VSeq) or seq.base is not base or seq.guard is not None:
                raise Unsupported("label of another sequence")
            at = seq.at
            base.fold(nm, S, z3.StringVal(""), lambda k, G: z3.If(k == 0, to_z3(at(k)), z3.Concat(
                to_z3(G(nm)), z3.StringVal(p.sep), to_z3(at(k)))))
            out.append(base.folds[nm][0](base.n))
            f, d = base.folds[nm][0], base.folds["dotted"][0]
            if p.sep:
                base.induct(nm, lambda k: z3.Implies(k > 0, z3.Concat(f(k), z3.StringVal(p.sep)) == d(k)), at=(base.n,))
            else:
                base.induct(nm, lambda k: f(k) == d(k), at=(base.n,))
            base.at(base.n - 1)
        else:
            out.append(to_z3(p))
    got = z3.Concat(*out) if len(out) > 1 else out[0]
    ctx.prove("the counters, each with a dot behind", got == base.folds["dotted"][0](base.n))


@unit("counters after any number of items in any order", functions=ITEM)
def u_history(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import MList
    from pyvc.values import Base, VSeq
    from props.clients.E01 import items
    r = Run(ctx)
    I = r.I
    s = [ctx.int("start %d" % i) for i in range(3)]
    for x in s:
        ctx.assume(x >= 0)
    host = Host(ctx)
    labs = [Label(r, "list %d" % i) for i in range(3)]
    I.sites.append("outer")
    top = r.top("ul", host)
    I.sites.append("list")
    a = I.call(top.ol, (r.list,), {"start": s[0], "label": labs[0].fn()})
    I.sites.append("sublist")
    b = I.call(a.ol, (), {"start": s[1], "label": labs[1].fn()})
    I.sites.append("other")
    c = I.call(a.ol, (r.list,), {"start": s[2], "label": labs[2].fn()})
    n = ctx.int("calls")
    ctx.assume(n >= 0)
    op = z3.Function("op", z3.IntSort(), z3.IntSort())
    base = Base(n, "calls")
    for i in range(3):
        base.fold("n%d" % i, z3.IntSort(), z3.IntVal(0), lambda k, G, i=i: to_z3(G("n%d" % i)) + z3.If(
            op(k) == i if i < 2 else z3.And(op(k) != 0, op(k) != 1), 1, 0))
    I.call(items, ([a, b, c], MList(VSeq(base, lambda k: mk(op(k))))))
    for i, l in enumerate((a, b, c)):
        I.sites.append("last of %d" % i)
        I.call(l.item)
        cnt = to_z3(s[i]) + base.folds["n%d" % i][0](base.n)
        pre = r.more(r.outer, to_z3(s[0]) - 1) if i == 1 else r.outer
        ctx.prove("an item shows the start plus the number of items before it",
                  len(labs[i].calls) >= 1 and r.same(labs[i].calls[-1][1], r.more(pre, cnt)))
