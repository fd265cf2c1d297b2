"""Paths: command lists of any length with any number of points each, followed through the functions by value."""
import z3

from pyvc.core import SStr, Unsupported, mk, to_z3
from pyvc.values import Base, ForAll, Measure, RefKind, VSeq, mark
from props import _box as X
from props._draw import R, Z, S, real

P = z3.DeclareSort("PointList")
COUNT = z3.Function("count", P, Z)
PX, PY = z3.Function("x_of", P, Z, R), z3.Function("y_of", P, Z, R)    # as given
UPD = z3.Function("point_replaced", P, Z, R, R, P)
CMD = z3.Function("then_command", X.M, S, P, X.M)
NONE = z3.Const("no_points", P)
GIVEN, LAZY, NUM = 0, 1, 2      # as given; resolved through the box when drawn; resolved
NARGS = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}


class Lists:
    """sequences of points described by a PointList"""

    def __init__(self, I, ctx, place):
        self.I, self.ctx, self.place = I, ctx, place
        self.bases = {}
        self.lazies = {}
        RefKind("points", P, self.term, lambda e, extra: self.seq(e, *extra))

    def base(self, p):
        key = z3.simplify(p).sexpr()
        b = self.bases.get(key)
        if b is None:
            b = self.bases[key] = Base(COUNT(p), "points%d" % len(self.bases))
            b.ref = p
            self.ctx.assume(COUNT(p) >= 0)
        return b

    def seq(self, p, kind, typ):
        return VSeq(self.base(p), lambda j: self.point(p, j, kind), typ={"list": list, "tuple": tuple}[typ])

    def point(self, p, j, kind):
        x, y = PX(p, j), PY(p, j)
        if kind == GIVEN:
            return (mk(x), mk(y))
        if kind == LAZY:
            return (self.place.x(mk(x)), self.place.y(mk(y)))
        return (mk(self.place.px(x)), mk(self.place.py(y)))

    def value(self, v):
        """('lazy' | 'num', formula) of a coordinate"""
        from elsie.boxtree.lazy import LazyValue
        if isinstance(v, LazyValue):
            was = self.place.rect
            self.place.rect = self.place._rect
            try:
                return LAZY, real(self.I.call(v.eval))
            finally:
                self.place.rect = was
        if isinstance(v, (int, float)) or hasattr(v, "is_int"):
            return NUM, real(v)
        return None, None

    def term(self, v):
        if not isinstance(v, VSeq) or v.guard is not None or v.rev or getattr(v.base, "ref", None) is None:
            return None
        c = getattr(v, "_points_term", None)
        if c is not None and c[0] == v.mutated:
            return c[1]
        r = self.term_(v)
        v._points_term = (v.mutated, r)
        return r

    def term_(self, v):
        p = v.base.ref
        if not (self.ctx.valid(v.lo == 0) and self.ctx.valid(v.hi == v.base.n)):
            return None
        ups = getattr(v, "updates", ())
        j = self.ctx.fresh("any_index", Z)
        for i, _ in ups:
            self.ctx.assume(j != i)
        e = v.at(j)
        if type(e) is not tuple or len(e) != 2:
            return None
        kx, x = self.value(e[0])
        ky, y = self.value(e[1])
        if kx is None or kx != ky:
            return None
        if kx == NUM and z3.eq(z3.simplify(x), z3.simplify(PX(p, j))) and z3.eq(z3.simplify(y), z3.simplify(PY(p, j))):
            kind = GIVEN
        elif self.ctx.valid(z3.And(x == self.place.px(PX(p, j)), y == self.place.py(PY(p, j)))):
            kind = kx
        else:
            return None
        t = p
        for i, val in ups:
            if type(val) is not tuple or len(val) != 2:
                return None
            ka, a = self.value(val[0])
            kb, b = self.value(val[1])
            if ka != NUM or kb != NUM or kind != NUM:
                return None
            t = UPD(t, i, a, b)
        return t, (kind, v.typ.__name__)


def measures(ctx, lists):
    """what is followed of a list of commands: what it draws (the points resolved), whether all points are numbers,
    its last two commands, and that all commands are whole"""
    from pyvc.values import NotApplicable

    def parts(c):
        if type(c) is not tuple or len(c) != 2 or not isinstance(c[0], (str, SStr)):
            raise NotApplicable()
        r = lists.term(c[1])
        if r is None:
            raise NotApplicable()
        return to_z3(c[0]), r[0], r[1][0]

    def drawn(get, c):
        name, p, kind = parts(c)
        if kind == GIVEN:
            raise NotApplicable()
        return CMD(to_z3(get("drawn")), name, p)

    def whole(c):
        name, p, kind = parts(c)
        return accepted(name, COUNT(p))
    ms = [Measure("drawn", X.M, X.START, drawn),
          ForAll("whole", whole),
          ForAll("resolved", lambda c: z3.BoolVal(parts(c)[2] == NUM)),
          Measure("last_name", S, z3.StringVal(""), lambda get, c: parts(c)[0]),
          Measure("last", P, NONE, lambda get, c: parts(c)[1]),
          Measure("before", X.M, X.START, lambda get, c: get("drawn")),
          Measure("previous", P, NONE, lambda get, c: get("last"))]
    for m in ms:
        ctx.measures[m.name] = m


def accepted(name, count):
    return z3.Or(*[z3.And(name == z3.StringVal(n), count % k == 0) for n, k in NARGS.items()])


class Commands:
    """the command list a user passes: any number of entries, which may be malformed"""

    def __init__(self, I, ctx, place):
        self.ctx = ctx
        self.n = ctx.int("n_commands")
        self.base = b = Base(self.n, "commands")
        self.lists = lists = Lists(I, ctx, place)
        self.isseq = z3.Function("is_sequence", Z, X.B_)
        self.empty = z3.Function("is_empty", Z, X.B_)
        self.name = z3.Function("command_name", Z, S)
        self.pts = z3.Function("command_points", Z, P)
        measures(ctx, lists)
        self.ok = lambda k: z3.And(self.isseq(k), z3.Not(self.empty(k)), accepted(self.name(k), COUNT(self.pts(k))))
        b.fold("drawn", X.M, X.START, lambda k, G: CMD(to_z3(G("drawn")), self.name(k), self.pts(k)))
        b.fold("whole", X.B_, z3.BoolVal(True), lambda k, G: z3.And(to_z3(G("whole")), self.ok(k)))
        b.fold("last_name", S, z3.StringVal(""), lambda k, G: self.name(k))
        b.fold("last", P, NONE, lambda k, G: self.pts(k))
        b.fold("before", X.M, X.START, lambda k, G: to_z3(G("drawn")))
        b.fold("previous", P, NONE, lambda k, G: to_z3(G("last")))
        com = self

        class Command:
            _pyvc_stub = True

            def __init__(self, k):
                self.k = k

            def _pyvc_isinstance(self, t):
                if t in (tuple, list):
                    # a list if it is a sequence that is not a tuple
                    return com.ctx.branch(com.isseq(self.k)) and com.ctx.branch(com.istuple(self.k)) == (t is tuple)
                return False

            def _pyvc_truth(self):
                if not com.ctx.branch(com.isseq(self.k)):
                    raise Unsupported("truth of a malformed command")
                return not com.ctx.branch(com.empty(self.k))

            def _pyvc_len(self):
                if not com.ctx.branch(com.isseq(self.k)):
                    raise mark(TypeError("len() of a malformed command"))
                if com.ctx.branch(com.empty(self.k)):
                    return 0
                return mk(COUNT(com.pts(self.k)) + 1)

            def _pyvc_getitem(self, i):
                if not com.ctx.branch(com.isseq(self.k)):
                    raise mark(TypeError("index into a malformed command"))
                if i == 0:
                    if com.ctx.branch(com.empty(self.k)):
                        raise mark(IndexError("empty command"))
                    return SStr((com.name(self.k),))
                if i == slice(1, None, None):
                    return lists.seq(com.pts(self.k), GIVEN, "list")
                raise Unsupported("part of a command")
        self.istuple = z3.Function("is_tuple", Z, X.B_)
        self.given = VSeq(b, Command)

    def end(self, name):
        return self.base.G(name, self.base.n)
