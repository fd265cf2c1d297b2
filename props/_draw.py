"""Shared harness of the drawing units: shapes and images of one box with any content rectangle, down to the emitted
elements.  Emitted attribute texts are read back (symbolically) as numbers, transforms and styles."""
import re

import z3

from pyvc.core import SNum, SStr, Sym, Unsupported, is_num, mk, to_z3
from pyvc.interp import has_sym
from pyvc.strs import SJoin
from pyvc.values import VSeq, mark, mk_eq
from props import _box as X

Z, R, S = z3.IntSort(), z3.RealSort(), z3.StringSort()


class Bad(Exception):
    """text that is not of the form the attribute needs"""


def parts(v):
    if isinstance(v, SStr):
        return list(v.parts)
    if isinstance(v, str):
        return [v]
    return [v]


TOKEN = re.compile(r"\s+|,|\(|\)|;|:|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|-|[A-Za-z_#%][\w.#%-]*")


def tokens(v):
    """(kind, value) of a text: num, word, punct, join; blanks separate"""
    out = []
    glue = False
    for p in parts(v):
        if isinstance(p, str):
            i = 0
            while i < len(p):
                m = TOKEN.match(p, i)
                if m is None:
                    raise Bad("character %r" % p[i])
                t = m.group()
                i = m.end()
                if t[0].isspace():
                    glue = False
                    continue
                if t in "(),;:":
                    out.append(("punct", t))
                    glue = False
                elif t == "-":
                    out.append(("neg", t))
                    glue = False
                elif t[0].isalpha() or t[0] in "_#%":
                    if glue:
                        raise Bad("missing separator before %r" % t)
                    out.append(("word", t))
                    glue = False
                else:
                    if glue:
                        raise Bad("missing separator before %r" % t)
                    out.append(("num", float(t)))
                    glue = True
        elif isinstance(p, SJoin):
            out.append(("join", p))
            glue = True
        elif is_num(p):
            if glue:
                raise Bad("missing separator before a number")
            if out and out[-1][0] == "neg":
                out.pop()
                p = -p
            out.append(("num", p))
            glue = True
        else:
            out.append(("text", p))
            glue = True
    return out


def numbers(v):
    """the numbers of a list separated by commas or blanks"""
    out = []
    for k, t in tokens(v):
        if k == "num":
            out.append(t)
        elif (k, t) != ("punct", ","):
            raise Bad("not a list of numbers: %r" % (t,))
    return out


def number(v):
    if is_num(v):
        return v
    ns = numbers(v)
    if len(ns) != 1:
        raise Bad("not a number")
    return ns[0]


def transform(v):
    """[(function, arguments)]"""
    out = []
    if v is None:
        return out
    ts = [t for t in tokens(v) if t != ("punct", ",")]
    i = 0
    while i < len(ts):
        if ts[i][0] != "word" or i + 1 >= len(ts) or ts[i + 1] != ("punct", "("):
            raise Bad("not a transform")
        f, a = ts[i][1], []
        i += 2
        while i < len(ts) and ts[i][0] == "num":
            a.append(ts[i][1])
            i += 1
        if i >= len(ts) or ts[i] != ("punct", ")"):
            raise Bad("not a transform")
        i += 1
        out.append((f, a))
    return out


def style(v):
    """property -> text or value"""
    out, cur = {}, []

    def flush():
        name, val = None, []
        for p in cur:
            if name is None:
                if not isinstance(p, str):
                    raise Bad("not a style")
                a, c, b = p.partition(":")
                if not c:
                    if a.strip():
                        raise Bad("not a style")
                    continue
                name = a.strip()
                if b.strip():
                    val.append(b.strip() if len(b.strip()) == len(b) or not val else b.strip())
            else:
                if isinstance(p, str):
                    p = p.rstrip()
                    if not p:
                        continue
                val.append(p)
        if name is not None:
            if name in out:
                raise Bad("property given twice")
            out[name] = val[0] if len(val) == 1 and isinstance(val[0], str) else SStr(val)
        cur.clear()
    for p in parts(v):
        if isinstance(p, str):
            segs = p.split(";")
            for i, s in enumerate(segs):
                if i:
                    flush()
                if s:
                    cur.append(s)
        else:
            cur.append(p)
    flush()
    return out


class El:
    def __init__(self, name):
        self.name, self.attrs, self.items = name, {}, []


class Raw:
    """markup of finished elements"""

    def __init__(self, items):
        self.items = items


class XmlRec:
    """Xml by its contract (X01): builds the tree of elements, attributes and texts it was told"""
    _pyvc_stub = True

    def __init__(self, ctx):
        self._ctx = ctx
        self.top = El(None)
        self.path = [self.top]
        self.is_open = False

    def element(self, name):
        e = El(name)
        self.path[-1].items.append(e)
        self.path.append(e)
        self.is_open = True

    def set(self, name, value, escape=True):
        if not self.is_open:
            raise mark(AssertionError("attribute outside a start tag"))
        self._ctx.prove("no attribute is given twice", name not in self.path[-1].attrs)
        self.path[-1].attrs[name] = value

    def text(self, t):
        self.is_open = False
        self.path[-1].items.append(("text", t))

    def raw_text(self, t):
        self.is_open = False
        if isinstance(t, Raw):
            self.path[-1].items.extend(t.items)
        else:
            self.path[-1].items.append(("raw", t))

    def close(self, name=None):
        if len(self.path) == 1 or name is not None and self.path[-1].name != name:
            raise mark(AssertionError("unbalanced element"))
        self.is_open = False
        self.path.pop()

    def to_string(self):
        if len(self.path) != 1:
            raise mark(AssertionError("open elements"))
        return Raw(self.top.items)


def svg_context(ctx, step=1):
    from elsie.render.backends.svg.rcontext import SvgRenderingContext
    c = object.__new__(SvgRenderingContext)
    c.xml = XmlRec(ctx)
    c.step, c.debug_boxes = step, False
    ctx.contracts["utils.sxml.Xml"] = lambda: XmlRec(ctx)
    return c


class Place:
    """the laid out layout of the box: any content rectangle (L06 for coordinates)"""
    _pyvc_stub = True

    def __init__(self, ctx):
        from elsie.utils.geom import Rect
        self._ctx = ctx
        self.horizontal = False
        self.rect = None
        self.w, self.h = ctx.real("width"), ctx.real("height")
        self._rect = Rect(ctx.real("left"), ctx.real("top"), self.w, self.h)
        ctx.assume(to_z3(self.w) >= 0)
        ctx.assume(to_z3(self.h) >= 0)
        self.requests = []
        self.px = z3.Function("resolve_x", R, R)
        self.py = z3.Function("resolve_y", R, R)

    def lay_out(self):
        self.rect = self._rect

    def set_image_size_request(self, w, h):
        self.requests.append((w, h))

    def _lazy(self, f, v):
        from elsie.boxtree.lazy import LazyValue

        def resolve():
            if self.rect is None:
                raise mark(Exception("position of a box before the layout"))
            return mk(getattr(self, f)(real(v)))
        resolve.__module__ = "props._draw"
        return LazyValue(resolve)

    def x(self, v):
        return self._lazy("px", v)

    def y(self, v):
        return self._lazy("py", v)

    def point(self, x, y):
        from elsie.boxtree.lazy import LazyPoint
        return LazyPoint(self.x(x), self.y(y))


def real(v):
    e = to_z3(v)
    return z3.ToReal(e) if z3.is_int(e) else e


class Slide:
    _pyvc_stub = True

    def __init__(self, ctx):
        self.max_step = ctx.int("current")
        ctx.assume(to_z3(self.max_step) >= 1)
        self.temp_cache = {}
        ctx.register(self, "slide")
        ctx.register(self.temp_cache, "temp_cache")


def placed_box(I, ctx, slide=None):
    b = X.bare_box(I, ctx, slide or Slide(ctx), X.Show(lambda s: s >= 1, 1), layout=Place(ctx))
    return b


def opt(ctx, name, value):
    """the option is absent or has the value"""
    return value() if ctx.choose(2, name) else None


def text(ctx, name):
    t = ctx.str(name)
    ctx.assume(to_z3(t) != z3.StringVal(""))
    return t


def painter(I, box):
    """the painter added last to the box"""
    return box.children[-1]


def emitted(I, ctx, box, step=1):
    """the elements painted by the items of the box"""
    box.layout.lay_out()
    c = svg_context(ctx, step)
    for p in list(box.children):
        I.call(p.render, (c,))
    ctx.prove("all elements are finished", len(c.xml.path) == 1)
    return c.xml.top.items


def eq_nums(ctx, what, got, want):
    if len(got) != len(want):
        ctx.prove(what, False)
        return
    for g, w in zip(got, want):
        ctx.prove(what, real(g) == real(w))


def read(ctx, what, fn, v):
    try:
        return fn(v)
    except Bad as e:
        ctx.trace.append(str(e))
        ctx.prove(what + " is well formed", False)
        raise core_end()


def core_end():
    from pyvc.core import PathEnd
    return PathEnd("malformed attribute")


def one(ctx, items, name):
    """exactly one element of that name"""
    ok = len(items) == 1 and isinstance(items[0], El) and items[0].name == name
    ctx.prove("one %s is drawn" % name, ok)
    if not ok:
        raise core_end()
    return items[0]


def check_paint(ctx, el, color, bg, width, dash):
    """fill and stroke of an emitted shape"""
    st = {k: el.attrs[k] for k in ("fill", "stroke", "stroke-width", "stroke-dasharray") if k in el.attrs}
    st.update(read(ctx, "style", style, el.attrs.get("style", "")))
    same(ctx, "the fill is the background or none", st.get("fill"), bg if bg is not None else "none")
    if color is None:
        same(ctx, "no stroke without a colour", st.get("stroke", "none"), "none")
    else:
        same(ctx, "the stroke has the colour", st.get("stroke"), color)
        w = st.get("stroke-width")
        if w is None:
            ctx.prove("the stroke has the width", real(width) == 1)
        else:
            ctx.prove("the stroke has the width", real(read(ctx, "width", number, w)) == real(width))
        d = st.get("stroke-dasharray")
        same(ctx, "the stroke has the dashes", None if isinstance(d, str) and d == "none" else d, dash)


def same(ctx, what, got, want):
    if got is None or want is None:
        ctx.prove(what, got is None and want is None)
    else:
        ctx.prove(what, mk_eq(got, want))


def check_rotation(ctx, tr, angle, cx, cy):
    """tr: functions of a transform; the rotation by the angle about the point"""
    if angle is None:
        return ctx.prove("no rotation unless asked for", all(_zero(ctx, f, a) for f, a in tr))
    if not tr:
        return ctx.prove("a rotation is drawn", real(angle) == 0)
    ok = len(tr) == 1 and tr[0][0] == "rotate" and len(tr[0][1]) in (1, 3)
    ctx.prove("a rotation is drawn", ok)
    if not ok:
        return
    a = tr[0][1]
    ctx.prove("the rotation has the angle", real(a[0]) == real(angle))
    c = a[1:] if len(a) == 3 else [0, 0]
    ctx.prove("the rotation is about the centre", z3.Or(real(angle) == 0, z3.And(
        real(c[0]) == real(cx), real(c[1]) == real(cy))))


def _zero(ctx, f, a):
    return f == "rotate" and ctx.valid(real(a[0]) == 0)


PT = z3.Function("then_point", X.M, R, R, X.M)


class Points:
    """any sequence of points given to a shape; each resolves through the box"""

    def __init__(self, I, ctx, place, least=0, name="points", typ=list):
        from pyvc.values import Base, Measure
        self.I, self.ctx = I, ctx
        self.n = ctx.int("n_" + name)
        ctx.assume(to_z3(self.n) >= least)
        self.base = Base(self.n, name)
        self.gx, self.gy = z3.Function(name + "_x", Z, R), z3.Function(name + "_y", Z, R)
        self.x = lambda k: place.px(self.gx(k))
        self.y = lambda k: place.py(self.gy(k))
        ctx.measures["pts"] = Measure("pts", X.M, X.START, lambda get, p: PT(get("pts"), real(p[0]), real(p[1])))
        self.base.fold("pts", X.M, X.START, lambda k, G: PT(to_z3(G("pts")), self.x(k), self.y(k)))
        self.base.fold("sx", R, z3.RealVal(0), lambda k, G: to_z3(G("sx")) + self.x(k))
        self.base.fold("sy", R, z3.RealVal(0), lambda k, G: to_z3(G("sy")) + self.y(k))
        self.given = VSeq(self.base, lambda k: (mk(self.gx(k)), mk(self.gy(k))), typ=typ)

    def end(self, name):
        return self.base.G(name, self.base.n)


def joined_points(I, ctx, what, v, seps=re.compile(r"\s+|\s*,\s*")):
    """the pairs of numbers of a points attribute, as a trace"""
    from pyvc.values import VList, measure_states
    ps = parts(v)
    if len(ps) != 1 or not isinstance(ps[0], SJoin):
        return concrete_points(ctx, what, v)
    j = ps[0]
    ctx.prove(what + ": points are separated", seps.fullmatch(j.sep) is not None)
    if not isinstance(j.seq, VSeq):
        raise Unsupported("points joined from a list")
    log = VList(tag="pts")

    def item(t):
        ns = read(ctx, what, numbers, t)
        ctx.prove(what + ": pairs of numbers", len(ns) == 2)
        if len(ns) != 2:
            raise core_end()
        I.list_method(log, "append", ((ns[0], ns[1]),), {})
    item.__module__ = "props._draw"
    I.helper("h_foreach", j.seq, item)
    return measure_states(log)["pts"]


def concrete_points(ctx, what, v):
    ns = read(ctx, what, numbers, v)
    ctx.prove(what + ": pairs of numbers", len(ns) % 2 == 0)
    t = X.START
    for i in range(0, len(ns) - 1, 2):
        t = PT(t, real(ns[i]), real(ns[i + 1]))
    return t


# ---------------------------------------------------------------- images
class Bitmap:
    """a decoded picture (PIL)"""
    _pyvc_stub = True
    format = "PNG"

    def __init__(self, w, h):
        self.size = (w, h)


class SvgRoot:
    """the root element of a parsed SVG file"""
    _pyvc_stub = True

    def __init__(self):
        self.asked = []

    def get(self, name, default=None):
        if name not in ("width", "height"):
            raise Unsupported("attribute %s of the image" % name)
        return SvgLen(name)


class SvgLen:
    _pyvc_stub = True

    def __init__(self, name):
        self.name = name


class Markup:
    """serialized image"""
    _pyvc_stub = True

    def __init__(self, step):
        self.step = step

    def decode(self, *a):
        return self


class Images:
    """the libraries and helpers an image is read with; natural size iw x ih, as many fragments as `steps`"""

    def __init__(self, I, ctx, kind):
        import lxml.etree as et
        from PIL import Image
        Image.preinit()
        self.kind = kind
        self.w, self.h = ctx.real("image_width"), ctx.real("image_height")
        ctx.assume(to_z3(self.w) > 0)
        ctx.assume(to_z3(self.h) > 0)
        self.steps = ctx.int("image_steps")
        ctx.assume(to_z3(self.steps) >= 1)
        self.root = SvgRoot()
        self.opened = 0

        def open_bitmap(I_, f, *a, **kw):
            self.opened += 1
            return Bitmap(self.w, self.h)

        def parse_svg(I_, f, *a, **kw):
            self.opened += 1
            ctx.prove("the image file is read", f == "image.svg")
            root = self.root

            class Doc:
                _pyvc_stub = True

                def getroot(self_):
                    return root
            return Doc()

        def tostring(I_, root, *a, **kw):
            ctx.prove("the whole image is used", root is self.root)
            return Markup(None)

        def length(t):
            if not isinstance(t, SvgLen):
                raise Unsupported("length")
            return self.w if t.name == "width" else self.h

        def steps(root):
            ctx.prove("the fragments of the image are counted", root is self.root)
            return self.steps

        def data(root, step):
            from pyvc.values import SOpt
            ctx.prove("the image is cut from the parsed file", root is self.root)
            if isinstance(step, SOpt):
                ctx.prove("the fragment is a number", z3.Not(step.none))
                step = step.val
            return Markup(step)

        def read(src):
            return b"data"
        self.ensured = []

        def ensure(box, steps):
            self.ensured.append((box, steps))
        ensure.__module__ = "props._draw"
        ctx.contracts["boxtree.box.Box._ensure_steps"] = ensure
        I.models[Image.open] = open_bitmap
        I.models[et.parse] = parse_svg
        I.models[et.tostring] = tostring
        for q, f in (("render.backends.svg.utils.svg_size_to_pixels", length), ("render.image.get_image_steps", steps),
                     ("render.image.create_image_data", data), ("utils.files.read_helper", read)):
            f.__module__ = "props._draw"
            ctx.contracts[q] = f
        self.source = b"picture" if kind == "bitmap" else "image.svg"

    def put(self, I, box, **kw):
        if self.kind == "bitmap":
            kw.setdefault("image_type", "png")
        return I.call(box.image, (self.source,), kw)

    def scale(self, ctx, rect, scale):
        """the scale the image is drawn with, and the corner"""
        w, h, iw, ih = real(rect.width), real(rect.height), real(self.w), real(self.h)
        if scale is not None:
            s = real(scale)
        else:
            s = z3.If(w > 0, z3.If(z3.And(h > 0, h / ih < w / iw), h / ih, w / iw), z3.If(h > 0, h / ih, 0))
        x = real(rect.x) + (w - iw * s) / 2
        y = real(rect.y) + (h - ih * s) / 2
        return s, x, y, iw * s, ih * s
