"""I03 lengths and ids of SVG documents."""
import os
import lxml.etree as et
from pyvc.api import bounded, unit
from pyvc import decks

UNITS = {"": 1.0, "px": 1.0, "mm": 96 / 25.4, "cm": 96 / 2.54, "pt": 96 / 72, "in": 96.0, "pc": 16.0}


@bounded("lengths", "random numbers (integers, decimals, exponents, signs) in every unit, through the size an image asks "
                    "for and through the conversion itself, tolerance 1e-4 relative")
def lengths(B):
    from elsie.render.backends.svg.utils import svg_size_to_pixels
    rng = B.rng
    for _ in range(B.n(500, 8000)):
        u = rng.choice(list(UNITS))
        v = rng.choice([rng.randint(1, 4000), round(rng.uniform(0.01, 900), rng.randint(1, 6))])
        t = rng.choice([str(v), repr(float(v)), "%e" % v, "%.8f" % v])
        B.case(t + u)
        got = svg_size_to_pixels(t + u)
        want = float(t) * UNITS[u]
        B.check(abs(got - want) <= 1e-4 * abs(want), "pixels of a length", got=got, want=want)
    for _ in range(B.n(40, 400)):
        (u1, u2) = rng.choice(list(UNITS)), rng.choice(list(UNITS))
        w, h = rng.randint(1, 30), rng.randint(1, 30)
        f = os.path.join(decks.fresh_dir(), "i.svg")
        with open(f, "w") as fh:
            fh.write("<svg xmlns='http://www.w3.org/2000/svg' width='%d%s' height='%d%s'/>" % (w, u1, h, u2))
        B.case((w, u1, h, u2))
        d = decks.deck(width=5000, height=5000)
        b = d.new_slide().box()
        b.image(f)
        decks.units(d)
        r = decks.frect(b)
        B.check(abs(r[2] - w * UNITS[u1]) < 1e-4 * r[2] and abs(r[3] - h * UNITS[u2]) < 1e-4 * r[3],
                "size of an image", got=r, want=(w * UNITS[u1], h * UNITS[u2]))


# stand-ins of pdflatex and pdf2svg: the "pdf" is the source, the picture has a few glyphs that are used in some order
TEX = r"""
import hashlib, os, sys
tool, args = sys.argv[1], sys.argv[2:]
if tool == "pdflatex":
    src = open(args[-1]).read()
    name = os.path.splitext(args[-1])[0]
    if "FAIL-TEX" in src:
        open(name + ".log", "w").write("log of the failure")
        sys.exit(1)
    open(name + ".pdf", "w").write(src)
else:
    src = open(args[0]).read()
    if "FAIL-SVG" in src:
        sys.exit("no picture")
    h = hashlib.sha1(src.encode()).hexdigest()
    n = int(h[:2], 16) % 12 + 2
    out = ['<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" width="20pt" height="10pt">',
           '<defs>']
    out += ['<g id="glyph0-%d" data-is="%s-%d"><path d="M 0 %d"/></g>' % (i, h, i, i) for i in range(n)]
    out += ['<clipPath id="clip1" data-is="%s-clip"><path d="M 0 0 L 1 1"/></clipPath></defs>' % h]
    out += ['<g clip-path="url(#clip1)" data-want="%s-clip">' % h]
    out += ['<use xlink:href="#glyph0-%d" x="1" y="%d" data-want="%s-%d"/>' % (i, i, h, i) for i in reversed(range(n))]
    open(args[1], "w").write("\\n".join(out + ["</g></svg>"]))
"""


@bounded("latex", "random LaTeX snippets (equal, with long common beginnings, other headers) on random slides, with stand-ins "
                  "of the TeX programs: every reference of every page denotes the element of its own picture, failing "
                  "programs are errors and leave nothing behind")
def latex_pictures(B):
    import hashlib
    import subprocess
    import sys
    from elsie.ext.latex import latex
    rng = B.rng
    script = os.path.join(decks.fresh_dir(), "tex.py")
    with open(script, "w") as f:
        f.write(TEX)
    real = subprocess.Popen

    class Popen(real):
        def __init__(self, args, *a, **kw):
            if os.path.basename(args[0]) in ("pdflatex", "pdf2svg"):
                args = [sys.executable, "-I", "-S", script, os.path.basename(args[0])] + list(args[1:])
            super().__init__(args, *a, **kw)
    subprocess.Popen = Popen
    try:
        cache = decks.fresh_dir()
        for it in range(B.n(12, 120)):
            d = decks.deck(width=400, height=300, cache_dir=cache)
            slides = []
            for i in range(rng.randint(1, 2)):
                s, want = d.new_slide(), []
                for k in range(rng.randint(1, 4)):
                    head, tail = rng.choice([None, "H" * 70]), rng.choice([None, "T"])
                    text = rng.choice(["$x$", "$x$ ", "a" * 90 + "1", "a" * 90 + "2", "a" * 20000])
                    bad = rng.random() < 0.1
                    if bad:
                        text += rng.choice(["FAIL-TEX", "FAIL-SVG"])
                    kw = {n: v for n, v in (("header", head), ("tail", tail)) if v is not None}
                    if bad:
                        for _ in range(2):
                            B.raises(lambda: latex(s.box(), text, **kw), "failing TeX program")
                    else:
                        it_ = latex(s.box(), text, scale=rng.choice([1.0, 2]), **kw)
                        want.append((text, head, tail))
                slides.append(want)
            B.case(slides)
            for want, page in zip(slides, decks.svgs(d)):
                root = et.fromstring(page.encode())
                is_ = {}
                for e in root.iter():
                    if isinstance(e.tag, str) and e.get("id"):
                        is_.setdefault(e.get("id"), set()).add(e.get("data-is"))
                uses, pictures = 0, []
                for e in root.iter():
                    w = isinstance(e.tag, str) and e.get("data-want")
                    if not w:
                        continue
                    if e.get("clip-path"):
                        pictures.append(w)
                        ref = e.get("clip-path")[len("url(#"):-1]
                    else:
                        ref = e.get("{http://www.w3.org/1999/xlink}href")[1:]
                    uses += 1
                    B.eq(is_.get(ref), {w}, "the element a reference denotes", reference=ref)
                shas = []
                for text, head, tail in want:
                    if head is not None and tail is not None:
                        shas.append(hashlib.sha1((head + "\n" + text + "\n" + tail).encode()).hexdigest() + "-clip")
                    else:
                        shas.append(None)
                B.eq(len(pictures), len(want), "pictures of the page")
                B.eq([p for p, x in zip(pictures, shas) if x], [x for x in shas if x], "pictures in order")
    finally:
        subprocess.Popen = real


IDS = ["a", "ab", "abc", "a-1", "a-12", "glyph0-1", "glyph0-10", "surface1", "surface12", "x.y", "x.y.z", "n_1", "n_1-n",
       "zz", "url", "q1"]
XL = "http://www.w3.org/1999/xlink"


@bounded("ids", "random documents over ids that are prefixes, suffixes and parts of each other, with 0-3 references per "
                "attribute in url(), href and style notation, and texts and attributes that only look similar")
def ids(B):
    from elsie.render.backends.svg.utils import rename_ids
    rng = B.rng
    for _ in range(B.n(400, 8000)):
        suffix = rng.choice(["-x", "-0", "a", "-" + "0123456789abcdef" * 2])
        have = rng.sample(IDS, rng.randint(1, 7))
        allids = have + ["unknown", "unknown2"]
        out = []
        for new in (False, True):
            r = B.rng.__class__(str(_) + str(B.seed))

            def nid(i):
                return i + suffix if new and i in have else i
            root = et.Element("svg", nsmap={"xlink": XL})
            root.set("width", "10")
            nodes = [root]
            rest = list(have)
            while rest or r.random() < 0.6:
                e = et.SubElement(r.choice(nodes), r.choice(["g", "rect", "use"]))
                nodes.append(e)
                e.text = r.choice([None, "#" + r.choice(allids), "plain"])
                if rest and r.random() < 0.8:
                    e.set("id", nid(rest.pop()))
                k = r.randint(0, 5)
                i, j = r.choice(allids), r.choice(allids)
                if k == 0:
                    e.set("{%s}href" % XL, "#" + nid(i))
                elif k == 1:
                    e.set("clip-path", "url(#%s)" % nid(i))
                    e.set("href", "#" + nid(j))
                elif k == 2:
                    e.set("style", "fill:url(#%s);mask:url(#%s) ;stroke:none" % (nid(i), nid(j)))
                elif k == 3:
                    e.set("values", "url(#%s);url(#%s);url(#%s)" % (nid(i), nid(j), nid(i)))
                elif k == 4:
                    e.set("class", "%s %s" % (i, j))
                else:
                    e.set("data", r.choice(["a#", "x", i, "(%s)" % j]))
            out.append(root)
        before, want = out
        text = et.tostring(before).decode()
        B.case((text, suffix))
        rename_ids(before, suffix)
        B.eq(et.tostring(before).decode(), et.tostring(want).decode(), "document with renamed ids")


# ---------------------------------------------------------------- every number
@unit("a length in pixels: every number", functions=["svg_size_to_pixels"])
def u_length(ctx):
    import z3
    from pyvc.core import SStr, mk, to_z3
    from pyvc.interp import Interp, MODELS
    from elsie.render.backends.svg import utils as M
    I = Interp(ctx)
    number = ctx.str("number")
    n = to_z3(number)
    NUM = z3.Function("number", z3.StringSort(), z3.RealSort())
    size = z3.Length(n)
    ctx.assume(size > 0)
    letter = z3.Function("letter", z3.StringSort(), z3.BoolSort())
    last = z3.SubString(n, size - 1, 1)
    ctx.assume(z3.Or(*[last == z3.StringVal(c) for c in "0123456789."]))      # a number ends with a digit or a point
    for c in "0123456789.":
        ctx.assume(z3.Not(letter(z3.StringVal(c))))
    ctx.str_hooks["isalpha"] = lambda s, *a: mk(letter(to_z3(s)))
    I.models[float] = lambda I, v=0.0: mk(NUM(to_z3(v))) if isinstance(v, SStr) else MODELS[float](I, v)
    us = list(UNITS)
    u = us[ctx.choose(len(us), "unit")]
    got = I.call(M.svg_size_to_pixels, (SStr((n, u)),))
    ctx.reach("converted")
    want = NUM(n) * to_z3(UNITS[u])
    off = to_z3(got) - want
    close = to_z3(1e-4) * z3.If(want >= 0, want, -want)
    ctx.prove("pixels in this unit", z3.And(off <= close, -off <= close))


# ---------------------------------------------------------------- every document
class Attrib:
    _pyvc_stub = True

    def __init__(self, doc, k):
        self.doc, self.k = doc, k

    def items(self):
        return self.doc.attributes(self.k)


class Element:
    """an element of the document, before anything of it was set on this path"""
    _pyvc_stub = True

    def __init__(self, doc, k):
        self.doc, self.k, self.changed = doc, k, False
        self.attrib = Attrib(doc, k)

    def items(self):
        return self.attrib.items()

    def get(self, name, default=None):
        from pyvc.core import Unsupported, cur, mk
        if name != "id" or self.changed:
            raise Unsupported("attribute %r of an element" % (name,))
        if not cur().branch(self.doc.HAS(self.k)):
            return default
        return mk(self.doc.ID(self.k))

    def set(self, name, value):
        from pyvc.core import cur
        self.changed = True
        cur().interp.list_method(self.doc.log, "append", (("set", self.k, name, value),), {})


class Root:
    """any document: its elements in document order"""
    _pyvc_stub = True

    def __init__(self, doc):
        self.doc = doc

    def iter(self):
        from pyvc.values import VSeq
        return VSeq(self.doc.base, lambda k: Element(self.doc, k))


class Ids:
    """a set of ids"""
    _pyvc_stub = True

    def __init__(self, doc):
        from pyvc.values import VList
        self.doc, self.log = doc, VList(tag="ids")

    def add(self, x):
        from pyvc.core import cur
        cur().interp.list_method(self.log, "append", (("id", x),), {})

    def _pyvc_contains(self, x):
        from pyvc.core import mk, to_z3
        from pyvc.values import measure_states
        return mk(self.doc.MEM(to_z3(measure_states(self.log)["ids"]), to_z3(x)))


class All(Ids):
    """the set of all ids of the document"""

    def add(self, x):
        from pyvc.core import Unsupported
        raise Unsupported("another id")

    def _pyvc_contains(self, x):
        from pyvc.core import mk, to_z3
        return mk(self.doc.renamed_id(to_z3(x)))


class Match:
    """any reference in the value of an attribute"""
    _pyvc_stub = True

    def __init__(self, pattern, name):
        self.sample = pattern.search("a #sample b")
        self.name = name

    def group(self, g=0):
        from pyvc.core import SStr, Unsupported, mk
        v = self.sample.group(g) if self.sample is not None else None
        if v == "#":
            return v
        if v not in ("sample", "#sample"):
            raise Unsupported("group of a reference")
        return SStr(("#", self.name)) if v[0] == "#" else mk(self.name)

    def _pyvc_getitem(self, g):
        return self.group(g)


class Doc:
    """Any document, and the sum of the changes made to it: each (element, attribute, new value) counts"""

    def __init__(self, ctx):
        import z3
        from pyvc.core import mk, to_z3
        from pyvc.values import Base, Measure, NotApplicable, VList
        self.ctx = ctx
        Z, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
        F = z3.Function
        self.T = T = z3.DeclareSort("Ids")
        self.HAS, self.ID = F("has_id", Z, B), F("id", Z, S)
        self.COUNT, self.NAME, self.VALUE = F("attributes", Z, Z), F("name", Z, Z, S), F("value", Z, Z, S)
        self.CHANGE = F("change", Z, S, S, Z)
        self.ADD, self.MEM_ = F("with_id", T, S, T), F("among", T, S, B)
        self.REFS = F("with_renamed_references", S, S)
        self.ATT = F("changes_of_attributes", Z, Z)
        self.suffix = to_z3(ctx.str("suffix"))
        self.none = z3.Const("no_ids", T)
        self.base = b = Base(ctx.int("elements"), "elements")
        self.log = VList(tag="changes")
        empty = z3.StringVal("")
        self.given = lambda k: z3.And(self.HAS(k), self.ID(k) != empty)
        b.fold("ids", T, self.none, lambda k, G: z3.If(self.given(k), self.ADD(to_z3(G("ids")), self.ID(k)),
                                                       to_z3(G("ids"))))
        b.fold("renamed", Z, z3.IntVal(0), lambda k, G: to_z3(G("renamed")) + z3.If(
            self.given(k), self.CHANGE(k, z3.StringVal("id"), z3.Concat(self.ID(k), self.suffix)), 0))
        b.fold("referring", Z, z3.IntVal(0), lambda k, G: to_z3(G("referring")) + self.ATT(k))

        def changes(get, x):
            if type(x) is not tuple or len(x) != 4 or x[0] != "set":
                raise NotApplicable()
            return mk(z3.simplify(to_z3(get("changes")) + self.CHANGE(x[1], to_z3(x[2]), to_z3(x[3]))))
        ctx.measures["changes"] = Measure("changes", Z, z3.IntVal(0), changes)

        def ids(get, x):
            if type(x) is not tuple or len(x) != 2 or x[0] != "id":
                raise NotApplicable()
            return self.ADD(to_z3(get("ids")), to_z3(x[1]))
        ctx.measures["ids"] = Measure("ids", T, self.none, ids)
        self.inner = {}

    def MEM(self, t, x):
        import z3
        self.ctx.assume(z3.Not(self.MEM_(self.none, x)))
        return self.MEM_(t, x)

    def renamed_id(self, x):
        """x is an id of the document"""
        from pyvc.core import to_z3
        return self.MEM(to_z3(self.base.G("ids", self.base.n)), x)

    def attributes(self, k):
        import z3
        from pyvc.core import mk, to_z3
        from pyvc.values import Base, VSeq
        key = z3.simplify(k).sexpr()
        if key not in self.inner:
            b = Base(mk(self.COUNT(k)), "attributes%d" % len(self.inner))

            def change(j, G):
                n, v = self.NAME(k, j), self.VALUE(k, j)
                self.ctx.assume(z3.Implies(z3.Not(z3.Contains(v, z3.StringVal("#"))), self.REFS(v) == v))
                return to_z3(G("referring")) + z3.If(z3.Or(n == z3.StringVal("id"), self.REFS(v) == v), 0,
                                                     self.CHANGE(k, n, self.REFS(v)))
            b.fold("referring", z3.IntSort(), z3.IntVal(0), change)
            self.ctx.assume(self.ATT(k) == to_z3(b.G("referring", b.n)))
            self.inner[key] = b

        def attribute(j):
            return (mk(self.NAME(k, j)), Value(self, k, j).text())
        return VSeq(self.inner[key], attribute)


class Value:
    """setting an attribute to its own value changes nothing"""

    def __init__(self, doc, k, j):
        import z3
        v = doc.VALUE(k, j)
        self.v = v
        doc.ctx.assume(z3.Implies(doc.REFS(v) == v, doc.CHANGE(k, doc.NAME(k, j), doc.REFS(v)) == 0))

    def text(self):
        from pyvc.core import mk
        return mk(self.v)


for cls in (Attrib, Element, Root, Ids, All, Match):
    cls.__module__ = "props.I03"


@unit("ids and references: every document", functions=["rename_ids"])
def u_ids(ctx):
    import re
    import z3
    from pyvc.core import Unsupported, mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import VSeq, measure_states, mk_eq
    from elsie.render.backends.svg import utils as M
    I, d = Interp(ctx), Doc(ctx)
    b = d.base

    def model(it):
        if isinstance(it, VSeq) and it.base is b:
            k = ctx.fresh("any", z3.IntSort())
            ctx.assume(z3.And(k >= 0, k < b.n))
            g = z3.BoolVal(True) if it.guard is None else to_z3(it.guard(k))
            ctx.prove("all ids are known", z3.And(g == d.given(k), z3.Implies(g, mk_eq(it.at(k), d.ID(k)))))
            return All(d)
        s = Ids(d)
        for x in it:
            s.add(x)
        return s
    ctx.set_model = model
    I.models[set] = lambda I, it=(): model(it)

    def replace(pattern, fn, value, *rest):
        if rest:
            raise Unsupported("a number of replacements")
        name = ctx.fresh("reference", z3.StringSort())
        got = I.call(fn, (Match(pattern, name),))
        hash_ = z3.Concat(z3.StringVal("#"), name)
        ctx.prove("a reference follows its id, and other references stay", to_z3(got) == z3.If(
            d.renamed_id(name), z3.Concat(hash_, d.suffix), hash_))
        return mk(d.REFS(to_z3(value)))
    ctx.str_hooks["re.sub"] = replace
    I.models[re.sub] = lambda I, p, f, v: replace(re.compile(p), f, v)
    I.call(M.rename_ids, (Root(d), mk(d.suffix)))
    ctx.reach("renamed")
    st = measure_states(d.log)
    G = lambda n: to_z3(b.G(n, b.n))
    ctx.prove("every id once, every reference to it, and nothing else",
              to_z3(st["changes"]) == G("renamed") + G("referring"))
