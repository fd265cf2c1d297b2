"""A Cairo context by its contract: current transformation, path (in page coordinates), graphics state, and what is
painted.  The transformation is relative to the one the context has when the unit starts (any)."""
import z3

from pyvc.core import Sym, Unsupported, mk, to_z3
from pyvc.values import Measure, VList, mark, measure_states, vlen
from props import _box as X
from props._draw import R, Z, S, real

IDENT = tuple(z3.RealVal(v) for v in (1, 0, 0, 1, 0, 0))     # xx yx xy yy x0 y0


def mul(m, t):
    """first t, then m"""
    a, b, c, d, e, f = m
    p, q, r, s, u, v = t
    return tuple(norm(x) for x in (a * p + c * q, b * p + d * q, a * r + c * s, b * r + d * s, a * u + c * v + e,
                                   b * u + d * v + f))


def norm(e):
    return z3.simplify(e, som=True)


def apply(m, x, y):
    return norm(m[0] * x + m[2] * y + m[4]), norm(m[1] * x + m[3] * y + m[5])


class Cairo:
    """cairocffi.Context"""
    _pyvc_stub = True

    def __init__(self, I, ctx, failing=False):
        self._I, self._ctx = I, ctx
        self.m = IDENT
        self.state = {"rgb": None, "width": 2.0, "dash": None, "source": None}
        self.saved = []
        self.path = VList(tag="path")
        self.cpx = self.cpy = 0.0
        self.has = False
        self.cpm = self.m
        self.first = None
        self.ops = []
        self.failing, self.failed = failing, False
        ctx.register(self, "cairo")

    # -------------------------------------------------------------- bookkeeping
    def _put(self, name, v):
        if getattr(self, name) is not v:
            self._ctx.note_write(self, name)
            setattr(self, name, v)

    def _still(self):
        if self._ctx.loop_stack:
            raise Unsupported("graphics state changed in a loop")

    def _fail(self):
        """any call may fail in the units about failures"""
        if self.failing and not self.failed and self._ctx.choose(2, "failure") == 1:
            self.failed = True
            raise mark(RuntimeError("drawing fails"))

    def _num(self, *v):
        for x in v:
            if not isinstance(x, (int, float)) and not isinstance(x, Sym):
                raise mark(TypeError("a number is needed"))
        return [real(x) for x in v]

    def _go(self, x, y):
        self._put("cpx", mk(x))
        self._put("cpy", mk(y))
        if self.cpm is not self.m:
            self._still()
            self.cpm = self.m

    def _add(self, *seg):
        self._I.list_method(self.path, "append", (seg,), {})

    def _has(self):
        h = self.has
        return h if isinstance(h, bool) else self._ctx.branch(to_z3(h))

    def _start(self):
        if self.has is not True:
            self._put("has", True)

    def _pt(self, x, y):
        return tuple(mk(v) for v in apply(self.m, x, y))

    # -------------------------------------------------------------- state
    def save(self):
        self._still()
        self.saved.append((self.m, dict(self.state)))

    def restore(self):
        self._still()
        if not self.saved:
            raise mark(RuntimeError("restore without save"))
        self.m, self.state = self.saved.pop()

    def translate(self, tx, ty):
        self._still()
        self._fail()
        tx, ty = self._num(tx, ty)
        self.m = mul(self.m, (1, 0, 0, 1, tx, ty))

    def rotate(self, radians):
        from pyvc.trig import sincos
        self._still()
        self._fail()
        a, = self._num(radians)
        s, c = sincos(self._ctx, a)
        self.m = mul(self.m, (c, s, -s, c, z3.RealVal(0), z3.RealVal(0)))

    def scale(self, sx, sy=None):
        self._still()
        self._fail()
        sx, sy = self._num(sx, sx if sy is None else sy)
        self.m = mul(self.m, (sx, z3.RealVal(0), z3.RealVal(0), sy, z3.RealVal(0), z3.RealVal(0)))

    def get_matrix(self):
        return Matrix(self.m)

    def set_source_rgb(self, r, g, b):
        self._still()
        self._fail()
        self.state["rgb"] = (r, g, b)
        self.state["source"] = None

    def set_source_surface(self, surface, x=0, y=0):
        self._still()
        self._fail()
        self.state["rgb"] = None
        self.state["source"] = (surface, mul(self.m, (1, 0, 0, 1) + tuple(self._num(x, y))))

    def set_line_width(self, w):
        self._still()
        self._fail()
        self.state["width"] = w

    def set_dash(self, dashes, offset=0):
        self._still()
        self._fail()
        self.state["dash"] = dashes

    # -------------------------------------------------------------- path
    def get_current_point(self):
        if self._has() and self.cpm is not self.m:
            raise Unsupported("current point in another transformation")
        return (self.cpx, self.cpy)

    def has_current_point(self):
        return self.has

    def new_path(self):
        self._still()
        self.path = VList(tag="path")
        self.has, self.cpx, self.cpy = False, 0.0, 0.0
        self.first = None

    def move_to(self, x, y):
        self._fail()
        x, y = self._num(x, y)
        self._add("move" if self._has() else "start", *self._pt(x, y))
        self._start()
        if not self._ctx.loop_stack:
            self.first = (x, y)
        elif self.first is not None:
            self.first = None
        self._go(x, y)

    def line_to(self, x, y):
        self._fail()
        x, y = self._num(x, y)
        self._add("line" if self._has() else "start", *self._pt(x, y))
        self._start()
        self._go(x, y)

    def curve_to(self, x1, y1, x2, y2, x3, y3):
        self._fail()
        x1, y1, x2, y2, x3, y3 = self._num(x1, y1, x2, y2, x3, y3)
        if not self._has():
            self._add("start", *self._pt(x1, y1))
        self._add("curve", *(self._pt(x1, y1) + self._pt(x2, y2) + self._pt(x3, y3)))
        self._start()
        self._go(x3, y3)

    def _rel(self, *v):
        if not self._has():
            raise mark(RuntimeError("no current point"))
        if self.cpm is not self.m:
            raise Unsupported("current point in another transformation")
        c = [real(self.cpx), real(self.cpy)]
        return [mk(norm(x + c[i % 2])) for i, x in enumerate(self._num(*v))]

    def rel_move_to(self, *v):
        self.move_to(*self._rel(*v))

    def rel_line_to(self, *v):
        self.line_to(*self._rel(*v))

    def rel_curve_to(self, *v):
        self.curve_to(*self._rel(*v))

    def close_path(self):
        self._still()
        if self._has():
            self._add("close")
            if self.first is None or self.cpm is not self.m:
                raise Unsupported("start of the outline to close")
            self._go(*self.first)

    def rectangle(self, x, y, w, h):
        self._fail()
        self._still()
        x, y, w, h = self._num(x, y, w, h)
        self._add("move" if self._has() else "start", *self._pt(x, y))
        for p in ((x + w, y), (x + w, y + h), (x, y + h)):
            self._add("line", *self._pt(*p))
        self._add("close")
        self._start()
        self.first = (x, y)
        self._go(x, y)

    def arc(self, xc, yc, radius, angle1, angle2):
        self._fail()
        self._still()
        xc, yc, r = self._num(xc, yc, radius)
        u = tuple(mk(norm(v * r)) for v in self.m[:2])
        v = tuple(mk(norm(v * r)) for v in self.m[2:4])
        if self._has():
            self._add("line to an arc")
        self._add("arc", self._pt(xc, yc), u, v, angle1, angle2)
        self._start()
        self._go(xc + r, yc)

    # -------------------------------------------------------------- painting
    def _paint(self, op, keep=False):
        self._still()
        self._fail()
        self.ops.append({"op": op, "path": list(list.__iter__(self.path)), "measures": measure_states(self.path),
                         "length": vlen(self.path), "m": self.m, **self.state})
        if not keep:
            self.new_path()

    def fill(self):
        self._paint("fill")

    def stroke(self):
        self._paint("stroke")

    def fill_preserve(self):
        self._paint("fill", True)

    def stroke_preserve(self):
        self._paint("stroke", True)

    def paint(self):
        self._paint("paint", True)


class Matrix:
    _pyvc_stub = True

    def __init__(self, m):
        self.m = m


RED, GREEN, BLUE = (z3.Function(n + "_of", S, R) for n in ("red", "green", "blue"))


def context(I, ctx, failing=False, cls=Cairo):
    """a Cairo rendering context in any state"""
    from elsie.render.backends.cairo.rcontext import CairoRenderingContext
    rc = object.__new__(CairoRenderingContext)
    rc.step, rc.debug_boxes = 1, False
    rc.ctx = c = cls(I, ctx, failing)
    rc.width, rc.height = ctx.real("page_width"), ctx.real("page_height")
    rc.line_scaling = ctx.real("line_scaling")
    rc.reference_ctx = Cairo(I, ctx)
    ctx.register(rc, "rcontext")

    def colour(col):
        """proved separately; anything may be an unknown colour"""
        c._fail()
        e = to_z3(col)
        return (mk(RED(e)), mk(GREEN(e)), mk(BLUE(e)))
    colour.__module__ = "props._cairo"
    ctx.contracts["render.backends.cairo.utils.get_rgb_color"] = colour
    return rc, c


def rgb(col):
    e = to_z3(col)
    return RED(e), GREEN(e), BLUE(e)


def rotation(ctx, angle, cx, cy):
    """the clockwise rotation of the page about a point, as a matrix"""
    from pyvc.trig import sincos
    import math
    if angle is None:
        return IDENT
    s, c = sincos(ctx, real(angle) * z3.RealVal(repr(math.pi)) / 180)
    m = mul((1, 0, 0, 1, real(cx), real(cy)), (c, s, -s, c, z3.RealVal(0), z3.RealVal(0)))
    return mul(m, (1, 0, 0, 1, -real(cx), -real(cy)))


def eq_pt(p, q):
    return z3.And(*[real(a) == real(b) for a, b in zip(p, q)])
