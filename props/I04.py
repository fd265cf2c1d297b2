"""I04 OpenRaster conversion."""
import base64
import io
import os
import zipfile

import lxml.etree as et
from PIL import Image

from pyvc.api import bounded, unit
from pyvc import decks

INK = "{http://www.inkscape.org/namespaces/inkscape}label"
XL = "{http://www.w3.org/1999/xlink}href"


def layer_image(rng, w, h):
    """Image with some visible rectangle (or none): (bytes, bbox, RGBA crop)."""
    kind = rng.choice(["rgba", "rgba", "rgba", "empty", "rgb", "full", "black"])
    im = Image.new("RGBA", (w, h), (0, 0, 0, 0))
    if kind in ("rgba", "black"):
        x0, y0 = rng.randint(0, w - 1), rng.randint(0, h - 1)
        x1, y1 = rng.randint(x0 + 1, w), rng.randint(y0 + 1, h)
        c = (0, 0, 0, 255) if kind == "black" else (rng.randint(0, 255), rng.randint(0, 255), 7, rng.randint(1, 255))
        im.paste(c, (x0, y0, x1, y1))
        box = (x0, y0, x1, y1)
    elif kind == "empty":
        box = None
    else:
        im.paste((rng.randint(0, 255), 0, 0, 255) if kind == "full" else (0, 0, 0, 255), (0, 0, w, h))
        box = (0, 0, w, h)
        if kind == "rgb":
            im = im.convert("RGB")
    b = io.BytesIO()
    im.save(b, "png")
    return b.getvalue(), box, im.convert("RGBA").crop(box) if box else None


class Ora:
    def __init__(self, rng):
        self.rng = rng
        self.w, self.h = rng.randint(4, 40), rng.randint(4, 40)
        self.srcs = [("data/l%d.png" % i,) + layer_image(rng, rng.randint(1, self.w), rng.randint(1, self.h))
                     for i in range(rng.randint(1, 4))]
        self.n = 0
        self.root = self.stack(2, top=True)

    def attrs(self, optional=True):
        r = self.rng
        a = {"name": r.choice(["layer", "a & b", "x **2**", "<>'\""]) + str(self.n)}
        self.n += 1
        a["x"], a["y"] = str(r.choice([0, 0, 3, -2])), str(r.choice([0, 0, 5, -4]))
        a["opacity"] = r.choice(["1.0", "1.0", "0.5", "0.25", "0"])
        a["visibility"] = r.choice(["visible"] * 3 + ["hidden"])
        if optional:
            for k in ("x", "y", "opacity", "visibility"):
                if r.random() < 0.05:
                    del a[k]
        return a

    def stack(self, depth, top=False):
        kids = []
        for _ in range(self.rng.randint(0 if not top else 1, 3)):
            if depth and self.rng.random() < 0.4:
                kids.append(self.stack(depth - 1))
            else:
                kids.append(("layer", self.attrs(), self.rng.choice(self.srcs)))
        return ("stack", {} if top else self.attrs(), kids)

    def xml(self, node, e=None):
        kind, at, rest = node
        el = et.Element(kind) if e is None else et.SubElement(e, kind)
        for k, v in at.items():
            el.set(k, v)
        if kind == "layer":
            el.set("src", rest[0])
        else:
            for k in rest:
                self.xml(k, el)
        return el

    def write(self, f, shape):
        image = et.Element("image", w=str(self.w), h=str(self.h), version="0.0.3")
        if shape == "spec":
            self.xml(self.root, image)
        with zipfile.ZipFile(f, "w") as z:
            z.writestr("mimetype", "image/openraster")
            z.writestr("stack.xml", et.tostring(image))
            for s in self.srcs:
                z.writestr(s[0], s[1])
            z.writestr("mergedimage.png", self.srcs[0][1])

    def expected(self, node, dx=0.0, dy=0.0, path=()):
        """bottom-up list of (name, x, y, w, h, pixels, opacities and labels of the groups)"""
        kind, at, rest = node
        if at.get("visibility", "visible") != "visible":
            return []
        x, y = dx + float(at.get("x", 0)), dy + float(at.get("y", 0))
        op = float(at.get("opacity", 1))
        if kind == "layer":
            _, _, box, crop = rest
            if box is None:
                return []
            return [(at["name"], x + box[0], y + box[1], float(box[2] - box[0]), float(box[3] - box[1]),
                     crop.tobytes(), path + (op,))]
        res = []
        for k in reversed(rest):
            res += self.expected(k, x, y, path + ((op, at["name"]) if "name" in at else ()))
        return res


def read(root):
    """What the SVG shows, in paint order."""
    out = []

    def go(e, m, path):
        m2 = m
        if e.get("transform"):
            t = decks.affine(e.get("transform"))
            m2 = (m[0] + t[4], m[1] + t[5])
            assert t[:4] == (1, 0, 0, 1)
        op = float(e.get("opacity", 1))
        tag = et.QName(e).localname
        if tag == "image":
            im = Image.open(io.BytesIO(base64.b64decode(e.get(XL).split(",", 1)[1]))).convert("RGBA")
            out.append((e.get(INK), m2[0] + float(e.get("x")), m2[1] + float(e.get("y")), float(e.get("width")),
                        float(e.get("height")), im.tobytes(), path + (op,)))
        else:
            p = path if tag == "svg" or not e.get(INK) else path + (op, e.get(INK))
            for c in e:
                go(c, m2, p)
    go(root, (0.0, 0.0), ())
    return out


@bounded("layers", "random layer trees (depth 3): offsets, opacities, labels, hidden and empty layers and groups, shared "
                   "sources, missing optional attributes; read back from the produced SVG")
def layers(B):
    from elsie.render.ora import convert_ora_to_svg
    rng = B.rng
    for it in range(B.n(250, 4000)):
        o = Ora(rng)
        f = os.path.join(decks.fresh_dir(), "a.ora")
        o.write(f, "spec")
        B.case((o.w, o.h, et.tostring(o.xml(o.root))))
        root = decks.parse(convert_ora_to_svg(f))
        B.eq((float(root.get("width")), float(root.get("height"))), (o.w, o.h), "size of the picture")
        got, want = read(root), o.expected(o.root)
        B.eq([g[0] for g in got], [w[0] for w in want], "layers in stacking order")
        for g, w in zip(got, want):
            B.eq(g[1:5], w[1:5], "place of a layer", name=w[0])
            B.check(g[5] == w[5], "pixels of a layer", name=w[0])
            B.eq(g[6], w[6], "opacity and labels", name=w[0])


@bounded("slide", "OpenRaster images on slides: size of the box, fragments of the layers, cached conversion")
def slide(B):
    rng = B.rng
    for it in range(B.n(25, 300)):
        o = Ora(rng)
        o.root = ("stack", {}, [("layer", {"name": "l **%d**" % k, "x": "0", "y": "0", "opacity": "1",
                                           "visibility": "visible"}, s)
                                for k, s in enumerate(o.srcs, 1) if s[2]] or
                  [("layer", {"name": "l", "visibility": "visible"}, o.srcs[0])])
        f = os.path.join(decks.fresh_dir(), "a.ora")
        o.write(f, "spec")
        B.case((o.w, o.h, et.tostring(o.xml(o.root))))
        cache = decks.fresh_dir()
        for _ in range(2):  # converted, then from the cache
            d = decks.deck(cache_dir=cache)
            b = d.new_slide().box()
            b.image(f)
            pages = decks.svgs(d)
            B.eq(decks.frect(b)[2:], (o.w, o.h), "size of the image box")
            names = [at["name"] for _k, at, s in o.root[2] if "**" in at["name"]]
            if names:
                top = max(int(n.split("**")[1]) for n in names)
                B.eq(len(pages), top, "fragments of the image")
                for p, page in enumerate(pages, 1):
                    svg = decks.parse(page).find(".//s:g/s:svg", decks.NS)
                    B.eq([g[0] for g in read(svg)], [n for n in names if int(n.split("**")[1]) == p],
                         "layers in fragment %d" % p)


@bounded("reject", "files that are no OpenRaster images")
def reject(B):
    from elsie.render.ora import convert_ora_to_svg
    f = os.path.join(decks.fresh_dir(), "a.ora")
    with zipfile.ZipFile(f, "w") as z:
        z.writestr("mimetype", "image/png")
        z.writestr("stack.xml", "<image w='1' h='1'/>")
    B.case("mimetype")
    B.raises(lambda: convert_ora_to_svg(f), "wrong mime type")


# ---------------------------------------------------------------- any tree of layers
class Elem:
    """an element of stack.xml"""
    _pyvc_stub = True
    ATTRS = ("x", "y", "opacity", "name", "visibility", "src")

    def __init__(self, tree, e):
        self.tree, self.e = tree, e

    @property
    def tag(self):
        from pyvc.core import mk
        return mk(self.tree.TAG(self.e))

    def get(self, name, default=None):
        from pyvc.core import Unsupported, cur, mk
        if name not in self.ATTRS:
            raise Unsupported("attribute %r of a layer" % (name,))
        if not cur().branch(self.tree.HAS[name](self.e)):
            return default
        return mk(self.tree.ATTR[name](self.e))

    def _pyvc_iter(self):
        return self.tree.children(self.e)

    def _pyvc_len(self):
        return self.tree.children(self.e).length()


class Sources:
    """the images of the archive; None if nothing of the image is visible"""
    _pyvc_stub = True

    def __init__(self, tree):
        self.tree = tree

    def _pyvc_getitem(self, src):
        from pyvc.core import cur, mk, to_z3
        s, t = to_z3(src), self.tree
        if cur().branch(t.EMPTY(s)):
            return None
        return (mk(t.DATA(s)), "image/png") + tuple(mk(f(s)) for f in t.BOX)

    def get(self, src, default=None):
        return self._pyvc_getitem(src)


class Doc:
    """the document being written"""
    _pyvc_stub = True

    def __init__(self):
        from pyvc.values import VList
        self.log = VList(tag="document")

    def add(self, *x):
        from pyvc.core import cur
        cur().interp.list_method(self.log, "append", (x,), {})

    def element(self, name):
        self.add("element", name)

    def set(self, name, value, escape=True):
        self.add("set", name, value)

    def close(self, name=None):
        self.add("close")


class Tree:
    """Any tree of layers and groups, and the document that shows it"""
    NAMES = ("x", "y", "width", "height", "opacity", "transform", "inkscape:label", "xlink:href")

    def __init__(self, ctx):
        import z3
        self.ctx = ctx
        Z, S, B, R = z3.IntSort(), z3.StringSort(), z3.BoolSort(), z3.RealSort()
        F = z3.Function
        self.TAG = F("tag", Z, S)
        self.HAS = {n: F("has_" + n, Z, B) for n in Elem.ATTRS}
        self.ATTR = {n: F("attribute_" + n, Z, S) for n in Elem.ATTRS}
        self.CHILD, self.KIDS = F("child", Z, Z, Z), F("children", Z, Z)
        self.EMPTY, self.DATA, self.NUM = F("empty", S, B), F("data", S, S), F("number", S, R)
        self.BOX = [F("box_" + n, S, Z) for n in "xywh"]
        # values of attributes and documents: by their constructors
        class V:
            sort = z3.DeclareSort("Value")
            none = z3.Const("absent", sort)
            text, num = F("text", S, sort), F("num", R, sort)
            offset, image = F("offset", R, R, sort), F("image", S, S, sort)
        self.V = V
        self.D = D = z3.DeclareSort("Document")
        self.ELEM = F("element", D, S, *[V.sort for _ in self.NAMES], z3.IntSort(), D)   # and other attributes
        self.END = F("end", D, D)
        self.SHOW = F("with_children", Z, D, D)     # the document with what is in a group behind it
        self.start = z3.Const("document", D)
        ctx.assume(self.NUM(z3.StringVal("0")) == 0)
        self.bases = {}

    def children(self, e):
        from pyvc.core import Unsupported, cur, mk
        from pyvc.values import Base, VSeq
        import z3
        key = z3.simplify(e).sexpr()
        if key not in self.bases:
            if self.bases:
                raise Unsupported("the children of an inner element")
            cur().assume(self.KIDS(e) >= 0)
            self.bases[key] = Base(mk(self.KIDS(e)), "children")
        return VSeq(self.bases[key], lambda k: self.elem(self.CHILD(e, k)))

    def elem(self, e):
        self.facts(e)
        return Elem(self, e)

    def facts(self, e):
        """a layer names its image"""
        import z3
        self.ctx.assume(z3.Implies(self.TAG(e) == z3.StringVal("layer"), self.HAS["src"](e)))
        s = self.ATTR["src"](e)
        self.ctx.assume(z3.And(self.BOX[0](s) >= 0, self.BOX[1](s) >= 0, self.BOX[2](s) > 0, self.BOX[3](s) > 0))

    # ---- values of attributes, up to notation
    def number(self, v):
        import z3
        from pyvc.core import SNum, SStr, to_z3
        if isinstance(v, (int, float)):
            return z3.RealVal(v) if isinstance(v, int) else to_z3(v)
        if isinstance(v, SNum):
            e = v.e
            return z3.ToReal(e) if z3.is_int(e) else e
        if isinstance(v, str):
            return z3.RealVal(v.strip())
        if isinstance(v, SStr) and len(v.parts) == 1:
            p = v.parts[0]
            return self.number(p) if isinstance(p, (str, SNum)) else self.NUM(p)
        if z3.is_expr(v):
            return self.NUM(v) if v.sort() == z3.StringSort() else v
        return None

    def fields(self, v, pattern):
        """the fields of a text that has the form of the pattern"""
        import re
        from pyvc.core import SStr
        parts = v.parts if isinstance(v, SStr) else (v,)
        flat, vals = "", []
        for p in parts:
            if isinstance(p, str):
                flat += p
            else:
                flat += chr(0xE000 + len(vals))
                vals.append(p)
        m = re.fullmatch(pattern, flat)
        if m is None:
            return None
        return [vals[ord(g) - 0xE000] if len(g) == 1 and ord(g) >= 0xE000 else g for g in m.groups()]

    def value(self, name, v):
        import z3
        from pyvc.core import SStr, to_z3
        from pyvc.values import NotApplicable
        V = self.V
        if name in ("x", "y", "width", "height", "opacity"):
            n = self.number(v)
            if n is None:
                raise NotApplicable()
            return z3.If(n >= to_z3(0.9999), V.none, V.num(n)) if name == "opacity" else V.num(n)
        if name == "transform":
            f = self.fields(v, r"\s*translate\(\s*([^\s,]+)[\s,]+([^\s,]+)\s*\)\s*")
            if f is not None:
                x, y = (self.number(g) for g in f)
                return z3.If(z3.And(x == 0, y == 0), V.none, V.offset(x, y))
        if name == "xlink:href":
            f = self.fields(v, r"data:(.+?);base64,(.+)")
            if f is not None:
                return V.image(*[z3.StringVal(g) if isinstance(g, str) else g for g in f])
        if not isinstance(v, (str, SStr)):
            raise NotApplicable()
        s = to_z3(v)
        return z3.If(s == z3.StringVal(""), V.none, V.text(s))

    # ---- what the document has to be
    def element(self, d, name, **kw):
        import z3
        kw = {{"label": "inkscape:label", "href": "xlink:href"}.get(k, k): v for k, v in kw.items()}
        return self.ELEM(d, name, *[kw.get(n, self.V.none) for n in self.NAMES], z3.IntVal(0))

    def put(self, d, name, v):
        """the document whose last element has the attribute"""
        from pyvc.values import NotApplicable
        import z3
        if d.decl().name() != "element":
            raise NotApplicable()
        a = d.children()
        if name in self.NAMES:
            a[2 + self.NAMES.index(name)] = self.value(name, v)
        else:
            a[-1] = z3.simplify(a[-1] + 1)
        return self.ELEM(*a)

    def given(self, e, name, default):
        import z3
        return z3.If(self.HAS[name](e), self.NUM(self.ATTR[name](e)), z3.RealVal(default))

    def shown(self, e, d):
        """the document with the element e, if it is visible"""
        import z3
        from pyvc.core import to_z3
        V = self.V
        s = self.ATTR["src"](e)
        S = z3.StringVal
        x, y, o = self.given(e, "x", 0), self.given(e, "y", 0), self.given(e, "opacity", 1)
        name = self.ATTR["name"](e)
        label = z3.If(z3.And(self.HAS["name"](e), name != S("")), V.text(name), V.none)
        hidden = z3.And(self.HAS["visibility"](e), self.ATTR["visibility"](e) != S("visible"))
        o = z3.If(o >= to_z3(0.9999), V.none, V.num(o))
        bx, by, bw, bh = (z3.ToReal(f(s)) for f in self.BOX)
        group = self.END(self.SHOW(e, self.element(d, S("g"), transform=z3.If(
            z3.And(x == 0, y == 0), V.none, V.offset(x, y)), opacity=o, label=label)))
        layer = self.END(self.element(
            d, S("image"), x=V.num(x + bx), y=V.num(y + by), width=V.num(bw), height=V.num(bh), label=label, opacity=o,
            href=V.image(S("image/png"), self.DATA(s))))
        return z3.If(hidden, d, z3.If(self.TAG(e) == S("stack"), group, z3.If(
            z3.And(self.TAG(e) == S("layer"), z3.Not(self.EMPTY(s))), layer, d)))

    def step(self, get, x):
        from pyvc.core import to_z3
        from pyvc.values import NotApplicable
        d = to_z3(get("document"))
        if type(x) is not tuple or not x:
            raise NotApplicable()
        if x[0] == "element":
            return self.element(d, to_z3(x[1]))
        if x[0] == "set":
            if not isinstance(x[1], str):
                raise NotApplicable()
            return self.put(d, *x[1:])
        if x[0] == "close":
            return self.END(d)
        if x[0] == "children":
            return self.SHOW(x[1], d)
        raise NotApplicable()


for cls in (Elem, Sources, Doc):
    cls.__module__ = "props.I04"


@unit("the picture of a group: every tree of layers", functions=["_children_to_svg", "_stack_to_svg", "_layer_to_svg"])
def u_group(ctx):
    import z3
    from pyvc.core import SStr, mk, to_z3
    from pyvc.interp import Interp, MODELS
    from pyvc.values import Measure, measure_states
    from elsie.render import ora as M
    I, t = Interp(ctx), Tree(ctx)
    D = t.D
    ctx.measures["document"] = Measure("document", D, t.start, t.step)
    root = ctx.int("root").e
    n = t.KIDS(root)
    doc, sources, top = Doc(), Sources(t), t.elem(root)
    ctx.assume(n >= 0)

    SHOWN = z3.Function("with_last", z3.IntSort(), D)      # the document with the last children
    ctx.assume(SHOWN(0) == t.start)

    def shown(j):
        j = z3.simplify(j)
        # the definition for the last few children (loops that are unrolled need them all)
        for d in range(ctx.unroll + 1):
            i = z3.simplify(j - d)
            c = t.CHILD(root, z3.simplify(n - i))
            t.facts(c)
            ctx.assume(z3.Implies(i >= 1, SHOWN(i) == t.shown(c, SHOWN(z3.simplify(i - 1)))))
        return SHOWN(j)

    def inv(view, x, bases):
        out = []
        if x is None:
            return out
        for key, d in view.items():
            for comp, v in d.items():
                if comp.endswith("m:document"):
                    out.append(("%s%s shows the last children" % (key, comp), to_z3(v) == shown(n - x)))
                    out.append(("%s%s shows as many of the last children" % (key, comp), to_z3(v) == shown(x)))
        return out
    ctx.invariants.append(inv)

    def number(I, v=0.0):
        return mk(t.NUM(to_z3(v))) if isinstance(v, SStr) else MODELS[float](I, v)
    I.models[float] = number

    def recursion(f, args, kwargs):
        """induction: the call on a child shows what is in it"""
        es = [a for a in args if isinstance(a, Elem)]
        if kwargs or len(es) != 1 or f is not M._children_to_svg or not any(a is doc for a in args):
            return NotImplemented
        ctx.prove("the images are passed on", any(a is sources for a in args))
        doc.add("children", es[0].e)
        return None
    ctx.recursion = recursion
    I.call(M._children_to_svg, (top, doc, sources))
    ctx.reach("shown")
    ctx.prove("what is in the group, in stacking order, and nothing else",
              to_z3(measure_states(doc.log)["document"]) == shown(n))
