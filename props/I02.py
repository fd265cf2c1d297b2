"""I02 image fragments."""
import os
import lxml.etree as et
from pyvc.api import bounded, unit
from pyvc import decks

INK = "http://www.inkscape.org/namespaces/inkscape"
SELS = [("1", {1}, None), ("2", {2}, None), ("1-2", {1, 2}, None), ("2+", set(), 2), ("3", {3}, None),
        ("1,3", {1, 3}, None), ("1, 3+", {1}, 3), ("4", {4}, None), ("1+", set(), 1), ("2-3", {2, 3}, None)]


class Node:
    def __init__(self, rng, depth, counter):
        counter[0] += 1
        self.id = "e%d" % counter[0]
        self.tag = rng.choice(["g", "g", "rect", "text", "tspan"])
        self.sel = rng.choice(SELS) if rng.random() < 0.45 else None
        self.label = None
        if self.sel:
            self.label = rng.choice(["**%s**", "name **%s**", "x **%s** y", "**%s** ** other"]) % self.sel[0]
        elif rng.random() < 0.3:
            self.label = rng.choice(["plain", "a * b", "1+"])
        self.text = rng.choice(["", "", "t%d " % counter[0]])
        self.tail = rng.choice(["", "", " u%d" % counter[0]])
        self.kids = [Node(rng, depth - 1, counter) for _ in range(rng.randint(0, 3))] if depth else []

    def shown(self, s):
        return s is None or self.sel is None or s in self.sel[1] or (self.sel[2] is not None and s >= self.sel[2])

    def top(self):
        own = max([1] + list(self.sel[1]) + ([self.sel[2]] if self.sel[2] else [])) if self.sel else 1
        return max([own] + [k.top() for k in self.kids])

    def xml(self, s):
        if not self.shown(s):
            return self.tail
        lab = " inkscape:label='%s'" % self.label if self.label is not None else ""
        return "<%s id='%s'%s>%s%s</%s>%s" % (self.tag, self.id, lab, self.text,
                                              "".join(k.xml(s) for k in self.kids), self.tag, self.tail)

    def __repr__(self):
        return self.xml(None)


HEAD = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='%s' width='20' height='10'>" % INK


def doc(nodes, s):
    return HEAD + "".join(n.xml(s) for n in nodes) + "</svg>"


def canon(x):
    return et.tostring(et.fromstring(x) if isinstance(x, str) else x, method="c14n", exclusive=True).decode()


def images_on(page):
    return [canon(et.tostring(g.find("s:svg", decks.NS), with_tail=False).decode())
            for g in decks.parse(page).findall("s:g", decks.NS)]


def scene(rng):
    c = [0]
    return [Node(rng, 2, c) for _ in range(rng.randint(1, 4))]


@bounded("fragments", "random annotated SVG trees (depth 3, text before, in and behind every element), start offsets "
                      "1-3, explicit selections, fragments switched off, used twice in a deck; every page against an "
                      "independently pruned document, and the file byte for byte")
def fragments(B):
    rng = B.rng
    for it in range(B.n(250, 4000)):
        nodes = scene(rng)
        f = os.path.join(decks.fresh_dir(), "i.svg")
        src = doc(nodes, None)
        with open(f, "w") as fh:
            fh.write(src)
        d = decks.deck()
        uses = []
        for _ in range(rng.randint(1, 2)):
            beg = rng.randint(1, 3)
            mode = rng.choice(["frag", "frag", "off", "select"])
            kw = {}
            if mode == "off":
                kw["fragments"] = False
            if mode == "select":
                kw["select_fragments"] = [rng.choice([None, 1, 2, 3, 5]) for _ in range(rng.randint(1, 3))]
            uses.append((beg, mode, kw))
        extra = rng.choice([0, 0, 5])
        B.case((src, uses, extra))
        r = d.new_slide()
        for beg, mode, kw in uses:
            r.box(width=40, height=20).image(
                f, **({} if beg == 1 and rng.random() < 0.5 else {"show_begin": beg}), **kw)
        if extra:
            r.box(show=str(extra)).rect()
        top = max([1, extra] + [beg - 1 + (max(n.top() for n in nodes) if mode == "frag" else
                                           1 if mode == "off" else len(kw["select_fragments"]))
                                for beg, mode, kw in uses])
        pages = decks.svgs(d)
        B.eq(len(pages), top, "number of fragments of the slide")
        for p, page in enumerate(pages, 1):
            want = []
            for beg, mode, kw in uses:
                s = p - beg + 1
                if s < 1:
                    continue
                if mode == "off":
                    want.append(doc(nodes, None))
                elif mode == "frag":
                    want.append(doc(nodes, s))
                else:
                    sel = kw["select_fragments"]
                    if s <= len(sel) and sel[s - 1] is not None:
                        want.append(doc(nodes, sel[s - 1]))
            B.eq(images_on(page), [canon(w) for w in want], "image elements in fragment %d" % p)
        with open(f) as fh:
            B.eq(fh.read(), src, "the image file")


@bounded("labels", "labels that are no annotation, and wrong annotations")
def labels(B):
    for lab, ok in (("plain", True), ("*1*", True), ("1", True), ("**2**", True), ("**x**", False), ("**2-1**", False),
                    ("**1+,2+**", False), ("** 2 **", True)):
        B.case(lab)
        f = os.path.join(decks.fresh_dir(), "i.svg")
        with open(f, "w") as fh:
            fh.write(HEAD + "<g id='a' inkscape:label='%s'/></svg>" % lab)
        d = decks.deck()
        b = d.new_slide().box(width=10, height=10)
        if ok:
            b.image(f)
            B.eq(len(decks.svgs(d)), 2 if "2" in lab else 1, "fragments of the label")
        else:
            B.raises(lambda: (b.image(f), decks.svgs(d)), "wrong annotation")


# ------------------------------------------------------------------ proofs
@unit("images cut to a fragment: exactly the hidden elements are removed")
def u_cut(ctx):
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from elsie.render.image import create_image_data
    from props import _tree as T
    I = Interp(ctx)
    step = ctx.int("step")
    t = T.Tree(I, ctx, step)
    r = I.call(create_image_data, (t.orig, step))
    ctx.reach("cut")
    ctx.prove("one text of the image", len(t.out) == 1 and isinstance(r, T.Text))
    root, state = t.out[0]
    ctx.prove("the text of the copied image", isinstance(root, T.Elem) and root.e.eq(t.copy))
    ctx.prove("what is hidden in the fragment is removed, with the text behind it kept, and nothing else",
              state == to_z3(t.base.G("pruned", t.base.n)))


@unit("fragments of an image: enough for every annotation")
def u_steps(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import Base, VSeq
    from elsie.render.image import get_image_steps
    from props import _tree as T
    I = Interp(ctx)
    t = T.Tree(I, ctx, 1)
    n = ctx.int("n_elements")
    b = Base(n, "elements")
    el = z3.Function("element", T.Z, T.E)
    least = lambda k: z3.If(t.marked(el(k)), t.least(el(k)), 1)
    b.fold("most", T.Z, z3.IntVal(1), lambda k, G: z3.If(least(k) > to_z3(G("most")), least(k), to_z3(G("most"))))
    t.orig.__dict__["iter"] = lambda: VSeq(b, lambda k: t.kind.make(el(k), False))
    r = I.call(get_image_steps, (t.orig,))
    ctx.reach("counted")
    ctx.prove("as many fragments as the highest annotation of any element", to_z3(r) == to_z3(b.G("most", b.n)))


@unit("image fragments: which image is drawn in a fragment of the slide")
def u_which(ctx):
    import z3
    from pyvc.core import SBool, mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import Base, SOpt, VSeq
    from props import _draw as D
    from props.I01 import Drawn
    I = Interp(ctx)
    b = D.placed_box(I, ctx)
    im = D.Images(I, ctx, "svg")
    beg = ctx.int("show_begin")
    ctx.assume(to_z3(beg) >= 1)
    kw = {}
    if ctx.choose(2, "start"):
        kw["show_begin"] = beg
    else:
        beg = 1
    mode = ctx.choose(4, "mode")      # fragments / off / selection / selection of a part, given as a tuple
    sel = None
    if mode == 1:
        kw["fragments"] = False
    if mode >= 2:
        n = ctx.int("n_selected")
        ctx.assume(to_z3(n) >= 0)
        base = Base(n, "selected")
        none, val = z3.Function("nothing_selected", D.Z, D.X.B_), z3.Function("selected_fragment", D.Z, D.Z)
        sel = kw["select_fragments"] = VSeq(base, lambda k: SOpt(none(k), mk(val(k))), typ=(list, tuple)[mode - 2])
        if ctx.choose(2, "fragments off"):
            kw["fragments"] = False
    im.put(I, b, **kw)
    steps = im.steps if mode == 0 else 1 if mode == 1 else n
    ctx.prove("the slide gets enough fragments", len(im.ensured) == 1 and im.ensured[0][0] is b)
    ctx.prove("the slide gets enough fragments", to_z3(im.ensured[0][1]) == to_z3(beg) - 1 + to_z3(steps))
    b.layout.lay_out()
    s = ctx.int("fragment")
    ctx.assume(to_z3(s) >= 1)
    c = Drawn(s)
    ctx.prove("one item", len(b.children) == 1)
    I.call(b.children[0].render, (c,))
    q = to_z3(s) - to_z3(beg) + 1
    if mode >= 2:
        base.at(q - 1)
        for k in (q - 1,):
            ctx.assume(z3.Or(none(k), val(k) >= 1))
        there = z3.And(q >= 1, q <= to_z3(n), z3.Not(none(q - 1)))
        want = val(q - 1)
    else:
        there = q >= 1
        want = q
    if not c.drawn:
        ctx.reach("nothing %d" % mode)
        ctx.prove("nothing is shown only outside the fragments of the image", z3.Not(there))
        return
    ctx.reach("shown %d" % mode)
    ctx.prove("shown once", len(c.drawn) == 1)
    ctx.prove("shown only in its fragments", there)
    got = c.drawn[0].get("svg")
    ctx.prove("the image is drawn", isinstance(got, D.Markup))
    if mode == 1:
        ctx.prove("the whole image without fragments", got.step is None)
    else:
        ctx.prove("the image cut to its fragment", got.step is not None and to_z3(got.step) == want)
